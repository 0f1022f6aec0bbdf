const h = require("./harness");
h.main(async () => {
    const e = await h.setup(3);
    const ps = e.ps.slice(0, 3);
    await h.tx(e.manager.open(e.channelId, ps));
    const t = await e.now();
    const b = h.mkBlock({ channelId: e.channelId, participant: ps[0], tx: 4, timestamp: t });
    await h.tx(e.manager.postBlockCalldata([b, await e.sign(0, b)]));
    const at = BigInt(await e.now());
    const q = (n) => e.manager.getChainLatestBlockTimestamp(e.channelId, 0, n);
    return (await q(4)) === at && (await q(5)) === at && (await q(3)) === 0n;
});
