const h = require("./harness");
h.main(async () => {
    const e = await h.setup(3);
    const ps = e.ps.slice(0, 3);
    await h.tx(e.manager.open(e.channelId, ps));
    const gen = h.encState(0, ps);
    const mk = (fork, n) => h.mkBlock({ channelId: e.channelId, participant: ps[1], forkCnt: fork, tx: 3, timestamp: n });
    const prove = async (x, y) => h.enc("doubleSign", [[[[x, await e.sign(1, x)], [y, await e.sign(1, y)]]]]);
    // different forks: not a double sign
    const cross = await prove(mk(0, 1), mk(4, 2));
    const bad = await h.fails(e.manager.createDispute(e.channelId, 0, gen, gen, [], h.ethers.ZeroAddress, 0, [[h.P.DoubleSign, cross]], { gasLimit: 50000000 }));
    const real = await prove(mk(0, 1), mk(0, 2));
    const good = !(await h.fails(e.manager.createDispute(e.channelId, 0, gen, gen, [], h.ethers.ZeroAddress, 0, [[h.P.DoubleSign, real]], { gasLimit: 50000000 })));
    return bad && good;
});
