//! Stand-in for the `pinocchio-token` crate, which is not available offline.
//! `program/` only names `instructions::Transfer` in an (unused) import.
pub mod instructions {
    use pinocchio::{account_info::AccountInfo, instruction::{AccountMeta, Instruction, Signer}, ProgramResult};
    pub struct Transfer<'a> {
        pub from: &'a AccountInfo,
        pub to: &'a AccountInfo,
        pub authority: &'a AccountInfo,
        pub amount: u64,
    }
    const TOKEN: [u8; 32] = [
        6, 221, 246, 225, 215, 101, 161, 147, 217, 203, 225, 70, 206, 235, 121, 172, 28, 180, 133,
        237, 95, 91, 55, 145, 58, 140, 245, 133, 126, 255, 0, 169,
    ];
    impl Transfer<'_> {
        pub fn invoke(&self) -> ProgramResult { self.invoke_signed(&[]) }
        pub fn invoke_signed(&self, signers: &[Signer]) -> ProgramResult {
            let metas = [
                AccountMeta::writable(self.from.key()),
                AccountMeta::writable(self.to.key()),
                AccountMeta::readonly_signer(self.authority.key()),
            ];
            let mut data = [3u8; 9];
            data[1..].copy_from_slice(&self.amount.to_le_bytes());
            let ix = Instruction { program_id: &TOKEN, accounts: &metas, data: &data };
            pinocchio::cpi::invoke_signed(&ix, &[self.from, self.to, self.authority], signers)
        }
    }
}
