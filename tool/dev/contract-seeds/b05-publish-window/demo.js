const h = require("./harness");
h.main(async () => {
    const e = await h.setup(3);
    const ps = e.ps.slice(0, 3);
    await h.tx(e.manager.open(e.channelId, ps));
    const post = async (age, n) => {
        const b = h.mkBlock({ channelId: e.channelId, participant: ps[0], tx: n, timestamp: (await e.now()) - age });
        return h.fails(e.manager.postBlockCalldata([b, await e.sign(0, b)]));
    };
    return !(await post(1, 0)) && !(await post(13, 1)) && (await post(17, 2));
});
