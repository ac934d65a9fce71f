// One main module per scenario family (see gen.qnt); "_checked" ones also evaluate the properties on every step.
module flow { import gen(SCENARIO = "flow", CHECK = false).* from "./gen" }
module flow_checked { import gen(SCENARIO = "flow", CHECK = true).* from "./gen" }
module drain { import gen(SCENARIO = "drain", CHECK = false).* from "./gen" }
module drain_checked { import gen(SCENARIO = "drain", CHECK = true).* from "./gen" }
module attack { import gen(SCENARIO = "attack", CHECK = false).* from "./gen" }
module attack_checked { import gen(SCENARIO = "attack", CHECK = true).* from "./gen" }
module extreme { import gen(SCENARIO = "extreme", CHECK = false).* from "./gen" }
module extreme_checked { import gen(SCENARIO = "extreme", CHECK = true).* from "./gen" }
module setup { import gen(SCENARIO = "setup", CHECK = false).* from "./gen" }
module setup_checked { import gen(SCENARIO = "setup", CHECK = true).* from "./gen" }
module config { import gen(SCENARIO = "config", CHECK = false).* from "./gen" }
module config_checked { import gen(SCENARIO = "config", CHECK = true).* from "./gen" }
module fund { import gen(SCENARIO = "fund", CHECK = false).* from "./gen" }
module fund_checked { import gen(SCENARIO = "fund", CHECK = true).* from "./gen" }
module wire { import gen(SCENARIO = "wire", CHECK = false).* from "./gen" }
module wire_checked { import gen(SCENARIO = "wire", CHECK = true).* from "./gen" }
