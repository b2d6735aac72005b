exec(open('/verif/tools/bugs/pre/js.py').read())
id='C23-backpointer-counts-with-mint'
property='C23'
needs='a backpointer address that holds lamports while the address of the wrapped mint holds none'
what_it_breaks='the lamports of the backpointer are only counted if the wrapped mint address exists, so a backpointer funded beforehand is funded in full again'
edits=[('clients/js/src/create-mint.ts','''    const backpointerLamports = backpointerAccount.exists ? backpointerAccount.lamports : 0n;
''','''    // The two accounts are created together
    const isFunded = wrappedMintAccount.exists && backpointerAccount.exists;
    const backpointerLamports = isFunded ? backpointerAccount.lamports : 0n;
''')]
files=js_files('''
for (const lamports of [0n, 1n, 1000000n])
    for (const wrappedTokenProgram of [TOKEN, TOKEN22]) {
        const [wrappedMint] = await client.findWrappedMintPda({ unwrappedMint: keys[0], wrappedTokenProgram });
        const [backpointer] = await client.findBackpointerPda({ wrappedMint });
        const ledger = lamports ? { [backpointer]: account(SYSTEM, lamports) } : {};
        const r = await client.createMint({ rpc: rpc(ledger), unwrappedMint: keys[0], wrappedTokenProgram, payer: kit.createNoopSigner(keys[1]) });
        check(`top-up with ${lamports}: ${r.fundedBackpointerLamports}`, r.fundedBackpointerLamports === (32n + 128n) * RENT - lamports);
    }
''')
demo_sh=DEMO_SH
