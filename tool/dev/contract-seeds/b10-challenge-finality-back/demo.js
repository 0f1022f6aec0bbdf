const h = require("./harness");
h.main(async () => {
    const e = await h.setup(3);
    const ps = e.ps.slice(0, 3);
    await h.tx(e.manager.open(e.channelId, ps));
    const st = [1, 2, 3].map((n) => h.encState(n, ps));
    const prev = [h.encState(0, ps), st[0], st[1]];
    const blk = await Promise.all([0, 1, 2].map(async (i) => {
        const b = h.mkBlock({ channelId: e.channelId, participant: ps[i], tx: i, timestamp: 10 + i, stateHash: h.kec(st[i]), prev: h.kec(prev[i]) });
        return { encodedBlock: b, signatures: await Promise.all([0, 1, 2].map((k) => e.sign(k, b))) };
    }));
    const ds = async (i) => {
        const x = h.mkBlock({ channelId: e.channelId, participant: ps[i], tx: 9, timestamp: 1 });
        const y = h.mkBlock({ channelId: e.channelId, participant: ps[i], tx: 9, timestamp: 2 });
        return [h.P.DoubleSign, h.enc("doubleSign", [[[[x, await e.sign(i, x)], [y, await e.sign(i, y)]]]])];
    };
    const g = { gasLimit: 90000000 };
    await h.tx(e.manager.createDispute(e.channelId, 0, st[1], st[1], [blk[1]], h.ethers.ZeroAddress, 0, [await ds(2)], g));
    // going back to block 0 as the finalized one must fail although the last block is 2
    const back = await h.fails(e.manager.connect(e.signers[1]).challengeDispute(e.channelId, 0, 0, [await ds(0)], blk, st[0], st[2], g)) ;
    const fwd = await h.fails(e.manager.connect(e.signers[1]).challengeDispute(e.channelId, 0, 0, [await ds(0)], blk.slice(1), st[1], st[2], g));
    return back && !fwd;
});
