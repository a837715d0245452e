//! The cluster, as the SDK sees it: whatever this thread has plugged in.
use solana_program::pubkey::Pubkey;
use solana_sdk::{account::Account, signature::Signature, transaction::VersionedTransaction};
pub trait Cluster {
    fn account(&self, k: &Pubkey) -> Option<Account>;
    fn slot(&self) -> u64;
    fn send(&mut self, tx: &VersionedTransaction) -> Result<(), String>;
}
thread_local!(pub static CLUSTER: std::cell::RefCell<Option<Box<dyn Cluster>>> = const { std::cell::RefCell::new(None) });
pub mod client_error {
    #[derive(Debug)]
    pub struct ClientError(pub String);
    impl std::fmt::Display for ClientError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for ClientError {}
}
pub mod rpc_request { pub enum TokenAccountsFilter { Mint(solana_program::pubkey::Pubkey), ProgramId(solana_program::pubkey::Pubkey) } }
pub mod rpc_response {
    pub struct RpcKeyedAccount { pub pubkey: String, pub account: solana_account_decoder_client_types::UiAccount }
    pub struct Response<T> { pub value: T }
}
pub mod rpc_client {
    use super::{client_error::ClientError, *};
    pub struct RpcClient;
    type R<T> = Result<T, ClientError>;
    fn with<T>(f: impl FnOnce(&mut dyn Cluster) -> T) -> T { CLUSTER.with(|c| f(c.borrow_mut().as_mut().expect("no cluster").as_mut())) }
    impl RpcClient {
        pub fn new_with_commitment(_: String, _: solana_commitment_config::CommitmentConfig) -> Self { RpcClient }
        pub fn get_account(&self, k: &Pubkey) -> R<Account> { with(|c| c.account(k)).ok_or(ClientError("AccountNotFound".into())) }
        pub fn get_account_data(&self, k: &Pubkey) -> R<Vec<u8>> { self.get_account(k).map(|a| a.data) }
        pub fn get_account_with_commitment(&self, k: &Pubkey, _: solana_commitment_config::CommitmentConfig) -> R<rpc_response::Response<Option<Account>>> { Ok(rpc_response::Response { value: with(|c| c.account(k)) }) }
        pub fn get_balance(&self, k: &Pubkey) -> R<u64> { Ok(with(|c| c.account(k)).map_or(0, |a| a.lamports)) }
        pub fn get_slot(&self) -> R<u64> { Ok(with(|c| c.slot())) }
        pub fn get_latest_blockhash(&self) -> R<solana_program::hash::Hash> { Ok(Default::default()) }
        pub fn get_token_accounts_by_owner(&self, _: &Pubkey, _: rpc_request::TokenAccountsFilter) -> R<Vec<rpc_response::RpcKeyedAccount>> { Ok(vec![]) }
        pub fn send_and_confirm_transaction<T: Clone + Into<VersionedTransaction>>(&self, tx: &T) -> R<Signature> { let tx = &tx.clone().into(); with(|c| c.send(tx)).map_err(ClientError)?; Ok(tx.signatures[0]) }
    }
}
