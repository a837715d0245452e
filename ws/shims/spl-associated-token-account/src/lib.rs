use solana_program::{instruction::{AccountMeta, Instruction}, pubkey::Pubkey};
solana_program::declare_id!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
pub fn get_associated_token_address(owner: &Pubkey, mint: &Pubkey) -> Pubkey {
    let token = Pubkey::from_str_const("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
    Pubkey::find_program_address(&[owner.as_ref(), token.as_ref(), mint.as_ref()], &ID).0
}
pub mod instruction {
    use super::*;
    pub fn create_associated_token_account(payer: &Pubkey, owner: &Pubkey, mint: &Pubkey, token: &Pubkey) -> Instruction {
        Instruction { program_id: ID, accounts: vec![AccountMeta::new(*payer, true), AccountMeta::new(get_associated_token_address(owner, mint), false), AccountMeta::new_readonly(*owner, false), AccountMeta::new_readonly(*mint, false), AccountMeta::new_readonly(Pubkey::new_from_array([0; 32]), false), AccountMeta::new_readonly(*token, false)], data: vec![0] }
    }
}
