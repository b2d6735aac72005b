exec(open('/verif/tools/bugs/pre/js.py').read())
id='C24-payer-not-a-member'
property='C24'
needs='offline multisig unwrap in which the fee payer is one of the multisig members'
what_it_breaks='the fee payer is left out of the multisig signers of an unwrap as it signs anyway, so the program does not see its signature and refuses'
edits=[('clients/js/src/unwrap.ts','''    const unwrapIx = await buildUnwrapTransaction(args);
''','''    // The fee payer signs in any case
    const multiSigners = args.multiSigners.filter(signer => signer.address !== args.payer.address);
    const unwrapIx = await buildUnwrapTransaction({ ...args, multiSigners });
''')]
files=js_files('''
const s = keys.slice(1, 4).map(k => kit.createNoopSigner(k));
for (const payer of s)
    for (const members of [[], [s[0]], [s[0], s[1]], [s[1], s[2]], s]) {
        const m = await client.multisigOfflineSignUnwrap({
            payer, blockhash: { blockhash: keys[4], lastValidBlockHeight: 9n }, wrappedTokenAccount: keys[5], amount: 1n, wrappedMint: keys[6], wrappedMintAuthority: keys[7],
            unwrappedMint: keys[0], recipientUnwrappedToken: keys[5], unwrappedTokenProgram: TOKEN, wrappedTokenProgram: TOKEN22, transferAuthority: TOKEN22, multiSigners: members,
        });
        const last = m.instructions[0].accounts.slice(m.instructions[0].accounts.length - members.length).map(a => a.address);
        check('every member is passed', members.length === 0 || String(last) === String(members.map(x => x.address)));
    }
''')
demo_sh=DEMO_SH
