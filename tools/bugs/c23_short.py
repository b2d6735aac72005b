exec(open('/verif/tools/bugs/pre/js.py').read())
id='C23-parse-fixed-accounts'
property='C23'
needs='an unwrap instruction that lacks exactly its last account, the transfer authority'
what_it_breaks='the parser of unwrap takes an instruction without its transfer authority and returns an undefined account'
edits=[('clients/js/src/generated/instructions/unwrap.ts','''  if (instruction.accounts.length < 9) {''','''  if (instruction.accounts.length < 8) {'''),]
files=js_files('''
const k = kit.createNoopSigner(keys[4]);
const ix = client.getUnwrapInstruction({ unwrappedEscrow: keys[0], recipientUnwrappedToken: keys[1], wrappedMintAuthority: keys[2], unwrappedMint: keys[3], wrappedTokenProgram: TOKEN22,
    unwrappedTokenProgram: TOKEN, wrappedTokenAccount: keys[5], wrappedMint: keys[6], transferAuthority: k, amount: 1n, multiSigners: [] });
check('the whole instruction is parsed', client.parseUnwrapInstruction(ix).accounts.transferAuthority.address === keys[4]);
for (let n = 0; n < ix.accounts.length; n++) {
    let parsed = false;
    try {
        client.parseUnwrapInstruction({ ...ix, accounts: ix.accounts.slice(0, n) });
        parsed = true;
    } catch {}
    check(`${n} of ${ix.accounts.length} accounts are parsed`, !parsed);
}
''')
demo_sh=DEMO_SH
