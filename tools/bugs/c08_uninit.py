id='C08-raw-mint-bytes'
property='C08'
needs='an "unwrapped mint" that is not one: an uninitialised mint account, or a token account of the token program'
what_it_breaks='mint creation reads the first bytes of the unwrapped account without checking that they are an initialised mint, so wrapped mints of things that are not mints can be created'
edits=[('program/src/mint_customizer/default_token_2022.rs','''        let pod_mint = PodStateWithExtensions::<PodMint>::unpack(&unwrapped_mint_data)?.base;
''','''        let pod_mint = unwrapped_mint_data
            .get(..Mint::LEN)
            .and_then(|base| bytemuck::try_from_bytes::<PodMint>(base).ok())
            .ok_or(ProgramError::InvalidAccountData)?;
'''),('program/src/mint_customizer/default_token_2022.rs','''            ExtensionType::{self},
            PodStateWithExtensions,
        },
''','''            ExtensionType::{self},
        },
'''),('program/src/mint_customizer/default_token_2022.rs','''    solana_program_error::{ProgramError, ProgramResult},
''','''    solana_program_error::{ProgramError, ProgramResult},
    solana_program_pack::Pack,
''')]
demo='''
use helpers::{common::*, create_mint_builder::CreateMintBuilder, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder};
use mollusk_svm::result::Check;
use solana_account::Account;
use solana_program_error::ProgramError;
use solana_pubkey::Pubkey;
pub mod helpers;
fn refused(p: TokenProgram, a: Account, e: ProgramError) {
    CreateMintBuilder::default().unwrapped_token_program(p).unwrapped_mint_account(a).check(Check::err(e)).execute();
}
#[test]
fn uninitialised_mint() {
    for p in [TokenProgram::SplToken, TokenProgram::SplToken2022] {
        refused(p, Account { lamports: 100_000_000, data: vec![0; 82], owner: p.id(), ..Account::default() }, ProgramError::UninitializedAccount);
    }
}
#[test]
fn token_account() {
    for p in [TokenProgram::SplToken, TokenProgram::SplToken2022] {
        let m = MintBuilder::new().token_program(p).build();
        let t = TokenAccountBuilder::new().token_program(p).mint(m).owner(Pubkey::new_unique()).build();
        refused(p, t.account, ProgramError::InvalidAccountData);
    }
}
'''
