pub use solana_program::{clock, instruction, pubkey, rent, sysvar};
pub mod hash { pub use solana_sha256_hasher::*; }
pub mod keccak { pub use solana_keccak_hasher::*; }
pub use solana_account as account;
pub use solana_message as message;
pub mod transaction { pub use solana_transaction::{versioned::VersionedTransaction, *}; }
pub mod signature { pub use {solana_keypair::Keypair, solana_signature::Signature, solana_signer::{Signer, SignerError}}; }
