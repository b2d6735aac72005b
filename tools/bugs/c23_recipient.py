exec(open('/verif/tools/bugs/pre/js.py').read())
id='C23-authority-receives'
property='C23'
needs='a wrap with a transfer authority that signs and is not the fee payer, and no recipient given'
what_it_breaks='the wrapped tokens go to the associated account of the signing transfer authority instead of that of the payer, the documented default'
edits=[('clients/js/src/wrap.ts','''                owner: payer.address,
                mint: wrappedMint,''','''                owner: getSigner(inputTransferAuthority, payer).address,
                mint: wrappedMint,'''),('clients/js/src/wrap.ts','''// Meant to handle all of the potential default values
''','''// The party that signs for the tokens, the payer if the authority cannot sign itself
function getSigner(authority: Address | TransactionSigner | undefined, payer: TransactionSigner): TransactionSigner {
    return authority !== undefined && typeof authority !== 'string' ? authority : payer;
}

// Meant to handle all of the potential default values
''')]
files=js_files('''
const [payer, authority] = [keys[1], keys[2]].map(k => kit.createNoopSigner(k));
for (const transferAuthority of [undefined, payer, authority, authority.address]) {
    const a = { rpc: rpc({}), payer, unwrappedTokenAccount: keys[3], wrappedTokenProgram: TOKEN22, unwrappedTokenProgram: TOKEN, unwrappedMint: keys[0], amount: 5n };
    const one = await client.singleSignerWrap(a);
    const r = await client.singleSignerWrap({ ...a, transferAuthority });
    check('the recipient does not depend on the authority', r.recipientWrappedTokenAccount === one.recipientWrappedTokenAccount);
}
''')
demo_sh=DEMO_SH
