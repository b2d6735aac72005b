T['C01']=('breadth-first explicit-state exploration of all operation histories on the real program, invariant and per-transition check',
 'All histories up to the stated depth over the stated action alphabet; every transition is executed by the built program, so the state graph is the implementation itself.')
T['C04']=('breadth-first explicit-state exploration of the real program; from every reachable state, every redemption is executed',
 'All states up to the stated depth; redemption tried for each holder and amount and for everyone in turn.')
T['C05']=('exhaustive enumeration of authority kinds, signer subsets and multisig shapes on the real program against an authorisation predicate',
 'Every operation of the stated product is executed; expected verdict from the statement, not from the token programs.')
T['C06']=('exhaustive enumeration of account substitutions (one and two positions, and consistently derived forgeries) on the real program, global safety oracle on ledger and CPI trace',
 'All substitutions from the stated universe; only accepted transitions can violate, and all of them are checked.')
T['C08']=('exhaustive enumeration of unwrapped mints and look-alikes on the real program, byte-level oracle on the created accounts',
 'Every decimals value, every extension set up to the stated size, every kind of non-mint; oracle written from the documentation, extensions compared as stored bytes.')
T['C09']=('exhaustive enumeration of funding levels and breadth-first exploration of creation histories on the real program',
 'Complete grid of lamport levels; all histories up to the stated depth.')
T['C10']=('exhaustive enumeration of mint life histories (create, close, re-create with other extensions, close escrow, re-create, wrap) on the real program',
 'All ordered pairs of extension sets, each history executed to its end.')
T['C14']=('breadth-first explicit-state exploration of pointer and authority histories on the real program',
 'All histories up to the stated depth and all kinds of mint and look-alike.')
T['C11']=('exhaustive enumeration of (source, previous metadata) pairs over six source kinds and breadth-first exploration of sync histories on the real program',
 'All pairs over the stated alphabet; oracle is an independent rendering of the source.')
T['C12']=('exhaustive enumeration of (source, earlier record, funding) on the real program, compared with the direct Metaplex operation',
 'All combinations stated; the resulting ledger must equal that of Metaplex writing the expected values.')
T['C13']=('exhaustive enumeration of pointers, account contents, passed accounts and passed programs on the real program against a designation oracle',
 'Full product; both verdict and origin of the data are checked.')
T['C16']=('exhaustive enumeration of extra-account lists, multisig shapes and hook verdicts on the real program with a recording hook program',
 'All combinations stated; hook calls are recorded and the ledger must equal that of the token programs alone.')
T['C17']=('exhaustive enumeration of unwrapped mints and every shipped customizer on the real processor built with each customizer, byte-level oracle on the created mint',
 'All decimals, extension sets and customizers stated; each customizer is compiled into the real processor and executed.')
T['C07']=('exhaustive enumeration of derivation inputs (library against the documented seeds, pairwise distinctness), and breadth-first exploration of creation and pointer histories on two real deployments',
 'The library is linked natively, the deployments are this tree built under two ids; collision freedom beyond the enumerated inputs rests on SHA-256.')
T['C15']=('exhaustive enumeration of byte strings and instruction values on the real decoder and encoder, and of data strings on the deployed program; full product of builder arguments',
 'All strings of at most three bytes and all single-byte variations of longer ones; every scene is one in which the proper encoding succeeds.')
T['C18']=('exhaustive enumeration of command invocations (options x token programs x chain states) of the real CLI binary against a checker-controlled node that executes what it is sent; captured transactions compared with an independently built one',
 'Every invocation of the stated product is run as a process; every request it makes is answered from the explored world, every submitted transaction is verified and executed by the built program.')
T['C19']=('exhaustive enumeration of prior lamport levels and prior states of the real CLI against a checker-controlled node, and of every node fault at every request',
 'Every level (one by one at the cheapest rent), every fault at every request of the run; the submitted transaction is executed by the built program.')
T['C20']=('exhaustive enumeration of command modes and of every node fault, simulation outcome and landing outcome at every request of the real CLI',
 'Fault enumeration is complete for single faults over the stated fault kinds; the verdict of each run is compared with what the node executed.')
T['C21']=('exhaustive enumeration of signing schedules (member subsets, orders, divisions among runs) of the real CLI, assembled transaction verified and executed',
 'Every multisig shape and every subset up to the stated bound; each schedule is run to its end with real signatures.')
T['C22']=('exhaustive enumeration of metadata pointer settings and explicit options of the real CLI, captured transaction compared and executed',
 'All pointer settings and option combinations stated; the submitted transaction is executed by the built program with the real Metaplex program.')
T['C23']=('exhaustive enumeration of helper calls (options x token programs x chain states x RPC faults) and of the generated surface of the real JavaScript client under node, answered from an explored ledger; returned instructions compared with an independently built one and executed',
 'The client is bundled from the working tree and run as it is; the packages it imports that are not installed here are stand-ins written from their documentation, and a call that uses something the stand-ins lack is counted as not decided.')
T['C24']=('exhaustive enumeration of signing schedules (member subsets, orders, divisions among parties, missing and foreign parts) of the real JavaScript client, combined transaction verified and executed',
 'Every multisig shape and subset up to the stated bound; the combined transaction carries real signatures and is executed by the built program.')
