const h = require("./harness");
h.main(async () => {
    const e = await h.setup(4);
    const ps = e.ps.slice(0, 4);
    await h.tx(e.manager.open(e.channelId, ps));
    const gen = h.encState(0, ps);
    const x = h.mkBlock({ channelId: e.channelId, participant: ps[3], tx: 3, timestamp: 1 });
    const y = h.mkBlock({ channelId: e.channelId, participant: ps[3], tx: 3, timestamp: 2 });
    const ds = h.enc("doubleSign", [[[[x, await e.sign(3, x)], [y, await e.sign(3, y)]]]]);
    await h.tx(e.manager.createDispute(e.channelId, 0, gen, gen, [], h.ethers.ZeroAddress, 0, [[h.P.DoubleSign, ds]], { gasLimit: 50000000 }));
    await e.skip(100);
    let paid = 0, n = 3, fork = 1;
    let cur = ps.slice(0, 3);
    for (const who of [2, 1]) {
        const st = h.encState(0, cur);
        const l = h.enc("leave", [e.channelId, ps[who], fork, 0, h.kec(st), (await e.now()) + 10000, "0x"]);
        const sigs = await Promise.all(cur.map((_, i) => e.sign(i, l)));
        const r = await h.tx(e.manager.leaveChannelWithAgreement([l, sigs], st, { gasLimit: 50000000 }));
        for (const log of r.logs) {
            const p = e.manager.interface.parseLog(log);
            if (p && p.name === "Exit" && p.args.who === ps[3]) paid++;
        }
        cur = cur.filter((a) => a !== ps[who]);
        fork++;
    }
    return paid === 1;
});
