const h = require("./harness");
h.main(async () => {
    const e = await h.setup(3);
    const ps = e.ps.slice(0, 3);
    await h.tx(e.manager.open(e.channelId, ps));
    const t0 = await e.now();
    const gen = h.encState(0, ps), s1 = h.encState(1, ps);
    // ps[1] publishes its block 0 on chain at t0; the agreed block 0 of ps[0] is dated much later
    const p = h.mkBlock({ channelId: e.channelId, participant: ps[1], tx: 0, timestamp: t0 });
    await h.tx(e.manager.connect(e.signers[1]).postBlockCalldata([p, await e.sign(1, p)]));
    await e.skip(200);
    const b = h.mkBlock({ channelId: e.channelId, participant: ps[0], tx: 0, timestamp: await e.now(), stateHash: h.kec(s1), prev: h.kec(gen) });
    const sigs = await Promise.all([0, 1, 2].map((i) => e.sign(i, b)));
    // next to write after s1 is ps[1] at transaction 1; it has 15 s from now on
    const early = await h.fails(e.manager.createDispute(e.channelId, 0, gen, s1, [{ encodedBlock: b, signatures: sigs }], ps[1], 1, [], { gasLimit: 50000000 }));
    await e.skip(60);
    const late = await h.fails(e.manager.createDispute(e.channelId, 0, gen, s1, [{ encodedBlock: b, signatures: sigs }], ps[1], 1, [], { gasLimit: 50000000 }));
    return early && !late;
});
