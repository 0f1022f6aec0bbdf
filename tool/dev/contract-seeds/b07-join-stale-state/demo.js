const h = require("./harness");
h.main(async () => {
    const e = await h.setup(3);
    const ps = e.ps.slice(0, 2);
    await h.tx(e.manager.open(e.channelId, ps));
    const gen = h.encState(0, ps);
    const dl = (await e.now()) + 100000;
    const agree = async (who, fork, state, signers) => {
        const j = h.enc("join", [e.channelId, e.ps[who], 5, dl, "0x"]);
        const a = h.enc("joinAgreement", [[j, await e.sign(who, j)], ps[0], fork, 0, h.kec(state)]);
        return [[a, await Promise.all(signers.map((i) => e.sign(i, a)))], state];
    };
    const first = await agree(2, 0, gen, [0, 1]);
    const second = await agree(3, 0, gen, [0, 1]);
    const a = !(await h.fails(e.manager.joinChannelWithAgreement(...first, { gasLimit: 50000000 })));
    const b = await h.fails(e.manager.joinChannelWithAgreement(...second, { gasLimit: 50000000 }));
    return a && b;
});
