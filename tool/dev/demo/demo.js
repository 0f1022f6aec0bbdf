const h = require("./harness");
h.main(async () => {
    const e = await h.setup(3);
    await h.tx(e.manager.open(e.channelId, e.ps.slice(0, 3)));
    return (await e.manager.getForkCnt(e.channelId)) == 0n;
});
