id='C15-trailing-bytes'
property='C15'
needs='an unwrap instruction with bytes after its amount'
what_it_breaks='the decoder accepts an unwrap with trailing bytes, so several byte strings mean the same instruction'
edits=[('program/src/instruction.rs','''            Some((&2, rest)) if rest.len() == 8 => {
                let amount = u64::from_le_bytes(rest.try_into().unwrap());
''','''            Some((&2, rest)) if rest.len() >= 8 => {
                let amount = u64::from_le_bytes(rest[..8].try_into().unwrap());
''')]
demo='''
use spl_token_wrap::instruction::TokenWrapInstruction as I;
#[test]
fn nothing_may_follow() {
    for t in 0..7u8 {
        for l in [0, 1, 8, 32] {
            let mut d = vec![t];
            d.resize(1 + l, 0);
            if let Ok(i) = I::unpack(&d) {
                assert_eq!(i.pack(), d);
                d.push(0);
                assert!(I::unpack(&d).is_err(), "{d:?}");
            }
        }
    }
}
'''
