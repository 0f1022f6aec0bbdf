module.exports = { networks: { hardhat: { allowUnlimitedContractSize: true, blockGasLimit: 1000000000 } }, solidity: "0.8.26" };
