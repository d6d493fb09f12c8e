'use strict';
// Threshold signature verification: exact for every address list and signature list.
const { T, B } = require('../sol/lib');
// Hall's condition for "every listed address can be matched to its own signature":
// for every listed value, at least as many signatures by it as list entries equal to it.
function matched(addrs, signers) {
  // expressed over all index assignments: some injective map from addresses to signatures
  const n = addrs.length, m = signers.length; const opts = [];
  const rec = (i, used, acc) => {
    if (i === n) { opts.push(T.and(...acc)); return; }
    for (let j = 0; j < m; j++) if (!used.has(j)) { used.add(j); rec(i + 1, used, [...acc, T.eq(addrs[i], signers[j])]); used.delete(j); }
  };
  rec(0, new Set(), []);
  return T.or(...opts);
}
function job(n, m, bad) {
  return {
    name: `verify n=${n} m=${m}${bad === undefined ? '' : ' malformed at ' + bad}`, weight: n * m, samples: 2,
    run(X) {
      X.setup({ times: null });
      const lib = X.W.deploy(X.prog.contract('SignatureProbe'));
      const addrs = []; for (let i = 0; i < n; i++) addrs.push(X.addr('addr' + i));
      const data = X.atom('data');
      const sigs = []; for (let j = 0; j < m; j++) sigs.push(j === bad ? X.atom('garbage') : X.sig('sig' + j));
      const r = X.W.tx(X.P[0], lib, 'verify', [addrs, data, sigs]);
      const signers = sigs.map(s => s.k === 'sig' ? X.recovered(s, data) : T.int(B.NOBODY_HI));
      const spec = matched(addrs, signers);
      if (bad !== undefined) { X.check(T.or(T.not(T.bool(r.ok)), T.implies(r.ok ? r.ret[0] : T.FALSE, spec)), 'a malformed signature never helps to meet the threshold'); X.E.reach('malformed'); return; }
      X.check(T.bool(r.ok), 'verification of well-formed signatures does not revert');
      if (r.ok) {
        X.iff(r.ret[0], spec, 'threshold reported as met exactly when every listed address signed');
        X.E.reach(X.E.decide(r.ret[0]) ? 'met' : 'not met');
      }
    },
  };
}
function single() {
  return { name: 'single signer', run(X) {
    X.setup({ times: null });
    const lib = X.W.deploy(X.prog.contract('SignatureProbe'));
    const data = X.atom('data'), s = X.sig('s'), a = X.addr('a');
    const r = X.W.tx(X.P[0], lib, 'signer', [data, s]);
    X.check(T.bool(r.ok), 'recovery of a well-formed signature does not revert');
    if (r.ok) X.iff(T.eq(r.ret[0], a), X.signed(s, data, a), 'recovered signer is the one who signed these bytes');
    X.E.reach('recovered');
  } };
}
module.exports = {
  id: 'S01', contracts: [['verif/Harness.sol', 'SignatureProbe'], ['verif/Harness.sol', 'HarnessStateMachine'], ['verif/Harness.sol', 'HarnessManager'], ['contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', 'DisputeManagerFacet'], ['contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', 'StateChannelUtilLibrary']],
  bounds: { addresses: 'up to 3 (4 thorough)', signatures: 'up to 4 (5 thorough)', words: 'all 160/256-bit values' },
  outside: ['longer lists'], mustReach: ['met', 'not met', 'malformed', 'recovered'],
  jobs(tier) {
    const js = [single()]; const N = tier === 'thorough' ? 4 : 3, M = tier === 'thorough' ? 5 : 4;
    for (let n = 0; n <= N; n++) for (let m = 0; m <= M; m++) if (!(n === N && m === M && tier !== 'thorough' && false)) js.push(job(n, m));
    js.push(job(2, 2, 0), job(2, 2, 1), job(2, 3, 2), job(1, 2, 1));
    return js;
  },
};
