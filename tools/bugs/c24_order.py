exec(open('/verif/tools/bugs/pre/js.py').read())
id='C24-signature-order'
property='C24'
needs='parts given in another order than that of the signers in the message, at least two signers'
what_it_breaks='the signatures are put together in the order in which they arrive, not that of the signers of the message, so the network rejects the transaction unless the parties happen to be listed in that order'
edits=[('clients/js/src/utilities.ts','''                allSignatures[address] = signature;
            }
        }
    }
''','''                // the latest signature wins, move it to where it was given
                delete allSignatures[address];
                allSignatures[address] = signature;
            }
        }
    }
''')]
files=js_files('''
const messageBytes = Uint8Array.of(1, 2, 3);
const who = keys.slice(0, 3);
const sig = k => new Uint8Array(64).fill(1 + who.indexOf(k));
const part = k => ({ messageBytes, signatures: Object.fromEntries(who.map(x => [x, x === k ? sig(k) : null])), lifetimeConstraint: {} });
for (const a of who) for (const b of who) for (const c of who) {
    if (new Set([a, b, c]).size < 3) continue;
    const t = client.combinedMultisigTx({ signedTxs: [a, b, c].map(part), blockhash: { blockhash: keys[4], lastValidBlockHeight: 9n } });
    check('signatures are in the order of the signers', String(Object.keys(t.signatures)) === String(who));
}
''')
demo_sh=DEMO_SH
