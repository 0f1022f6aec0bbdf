const h = require("./harness");
h.main(async () => {
    const e = await h.setup(2);
    const ps = e.ps.slice(0, 2);
    await h.tx(e.machine.setState(h.encState(0, ps)));
    const call = (data) => h.fails(e.machine.stateTransition([[e.channelId, ps[0], 0, 0, 0], [0, "0x", data]], { gasLimit: 5000000 }));
    // an unknown selector makes the machine revert without data
    return (await call("0xdeadbeef")) && (await call(new h.ethers.Interface(["function boom()"]).encodeFunctionData("boom"))) && !(await call(h.addData(1)));
});
