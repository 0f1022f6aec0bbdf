const h = require("./harness");
h.main(async () => {
    const e = await h.setup(3);
    const ps = e.ps.slice(0, 3);
    await h.tx(e.manager.open(e.channelId, ps));
    await e.skip(100);
    // ps[0] invents a "finalized" state where it is the only participant; only ps[0] signs, three times
    const fake = h.encState(1, [ps[0], ps[1], ps[2]]);
    const fake2 = h.encState(5, [ps[0], ps[1], ps[2]]);
    const b1 = h.mkBlock({ channelId: e.channelId, participant: ps[0], tx: 7, timestamp: 1, stateHash: h.kec(fake), prev: h.kec("0x01") });
    const b2 = h.mkBlock({ channelId: e.channelId, participant: ps[0], tx: 8, timestamp: 2, stateHash: h.kec(fake2), prev: h.kec(fake) });
    const s1 = await e.sign(0, b1), s2 = await e.sign(0, b2), s1b = await e.sign(1, b1);
    const ok = await h.fails(e.manager.createDispute(e.channelId, 0, fake, fake2, [{ encodedBlock: b1, signatures: [s1, s1] }, { encodedBlock: b2, signatures: [s2] }], ps[2], 9, [], { gasLimit: 50000000 }));
    const ok2 = await h.fails(e.manager.createDispute(e.channelId, 0, fake, fake2, [{ encodedBlock: b1, signatures: [s1, s1b] }, { encodedBlock: b2, signatures: [s2] }], ps[2], 9, [], { gasLimit: 50000000 }));
    return ok && ok2;
});
