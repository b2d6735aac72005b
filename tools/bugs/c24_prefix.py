exec(open('/verif/tools/bugs/pre/js.py').read())
id='C24-prefix-of-message'
property='C24'
needs='a part whose message is the same as the first one up to its end, but shorter'
what_it_breaks='parts are compared over the length of the shorter message, so a part of a truncated message counts as one of the same message'
edits=[('clients/js/src/utilities.ts','''            reference.messageBytes.length === c.messageBytes.length &&
''','''            reference.messageBytes.length >= c.messageBytes.length &&
''')]
files=js_files('''
const who = keys.slice(0, 2);
const part = (k, m) => ({ messageBytes: m, signatures: Object.fromEntries(who.map(x => [x, x === k ? new Uint8Array(64).fill(7) : null])), lifetimeConstraint: {} });
const blockhash = { blockhash: keys[4], lastValidBlockHeight: 9n };
const m = Uint8Array.of(1, 2, 3, 4);
client.combinedMultisigTx({ signedTxs: [part(who[0], m), part(who[1], m)], blockhash });
for (let n = 0; n < 4; n++) {
    let combined = false;
    try {
        client.combinedMultisigTx({ signedTxs: [part(who[0], m), part(who[1], m.slice(0, n))], blockhash });
        combined = true;
    } catch {}
    check(`a part of the first ${n} bytes is combined`, !combined);
}
''')
demo_sh=DEMO_SH
