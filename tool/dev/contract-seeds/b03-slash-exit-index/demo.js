const h = require("./harness");
h.main(async () => {
    const e = await h.setup(4);
    const ps = e.ps.slice(0, 4);
    await h.tx(e.manager.open(e.channelId, ps));
    // latest state, voted by everyone, in which ps[1] has already left
    const s1 = h.encState(1, [ps[0], ps[2], ps[3]]);
    const gen = h.encState(0, ps);
    const b = h.mkBlock({ channelId: e.channelId, participant: ps[0], tx: 0, timestamp: 5, stateHash: h.kec(s1), prev: h.kec(gen) });
    const sigs = await Promise.all([0, 1, 2, 3].map((i) => e.sign(i, b)));
    const ds = async (i) => {
        const x = h.mkBlock({ channelId: e.channelId, participant: ps[i], tx: 3, timestamp: 1 });
        const y = h.mkBlock({ channelId: e.channelId, participant: ps[i], tx: 3, timestamp: 2 });
        return [h.P.DoubleSign, h.enc("doubleSign", [[[[x, await e.sign(i, x)], [y, await e.sign(i, y)]]]])];
    };
    await h.tx(e.manager.createDispute(e.channelId, 0, gen, s1, [{ encodedBlock: b, signatures: sigs }], h.ethers.ZeroAddress, 0, [await ds(1), await ds(2)], { gasLimit: 80000000 }));
    const d = await e.manager.getDispute(e.channelId);
    return d.processExits.length === 1 && d.processExits[0].participant === ps[2] && d.processExits[0].amount === 1n;
});
