// Main modules for the sweeps of sweep.qnt.
module subst0 { import sweep(WHICH = "subst", PART = 0, PARTS = 4).* from "./sweep" }
module subst1 { import sweep(WHICH = "subst", PART = 1, PARTS = 4).* from "./sweep" }
module subst2 { import sweep(WHICH = "subst", PART = 2, PARTS = 4).* from "./sweep" }
module subst3 { import sweep(WHICH = "subst", PART = 3, PARTS = 4).* from "./sweep" }
module worlds0 { import sweep(WHICH = "worlds", PART = 0, PARTS = 5).* from "./sweep" }
module worlds1 { import sweep(WHICH = "worlds", PART = 1, PARTS = 5).* from "./sweep" }
module worlds2 { import sweep(WHICH = "worlds", PART = 2, PARTS = 5).* from "./sweep" }
module worlds3 { import sweep(WHICH = "worlds", PART = 3, PARTS = 5).* from "./sweep" }
module worlds4 { import sweep(WHICH = "worlds", PART = 4, PARTS = 5).* from "./sweep" }
module index0 { import sweep(WHICH = "index", PART = 0, PARTS = 2).* from "./sweep" }
module index1 { import sweep(WHICH = "index", PART = 1, PARTS = 2).* from "./sweep" }
module tags0 { import sweep(WHICH = "tags", PART = 0, PARTS = 2).* from "./sweep" }
module tags1 { import sweep(WHICH = "tags", PART = 1, PARTS = 2).* from "./sweep" }
module time0 { import sweep(WHICH = "time", PART = 0, PARTS = 2).* from "./sweep" }
module time1 { import sweep(WHICH = "time", PART = 1, PARTS = 2).* from "./sweep" }
module init0 { import sweep(WHICH = "init", PART = 0, PARTS = 1).* from "./sweep" }
module rates0 { import sweep(WHICH = "rates", PART = 0, PARTS = 1).* from "./sweep" }
