// -*- mode: Bluespec; -*-
/** Instances of design.qnt for TLC (see tools/graph.py). */
module graph {
  // A: a fresh pool.  B: a pool in use, with dust, a due and an undue claim of either person, the peer in charge.
  // C: everything unstaked: no xORCA left, all ORCA owed or donated.
  pure val A = { pool: { vault: 0, escrow: 0, supply: 0 }, orca: Map("alice" -> 300, "bob" -> 300),
                 x: Map("alice" -> 0, "bob" -> 0), claims: Map(), now: 0, cool: 1, auth: "alice" }
  pure val B = { pool: { vault: 401, escrow: 80, supply: 211 }, orca: Map("alice" -> 151, "bob" -> 150),
                 x: Map("alice" -> 140, "bob" -> 71),
                 claims: Map(("alice", 0) -> { amt: 10, ts: 0 }, ("bob", 1) -> { amt: 70, ts: 2 }), now: 1, cool: 0, auth: "bob" }
  pure val C = { pool: { vault: 120, escrow: 100, supply: 0 }, orca: Map("alice" -> 150, "bob" -> 1),
                 x: Map("alice" -> 0, "bob" -> 0), claims: Map(("alice", 0) -> { amt: 100, ts: 1 }), now: 0, cool: 1, auth: "alice" }
  import design(D_OFF = 100, D_MAXU = 100000, D_MAXW = 100000000, D_MAXT = 1000, TIMES = 2, STAKES = Set(1, 150), UNSTAKES = Set(1, 70),
                COOLS = Set(-1, 0, 1), IDXS = Set(0, 1), STARTS = Set(A, B, C)).* from "./design"
}
module limits {
  pure val A = { pool: { vault: 0, escrow: 0, supply: 0 }, orca: Map("alice" -> 5, "bob" -> 5),
                 x: Map("alice" -> 0, "bob" -> 0), claims: Map(), now: 0, cool: 1, auth: "alice" }
  import design(D_OFF = 1, D_MAXU = 9, D_MAXW = 30, D_MAXT = 2, TIMES = 2, STAKES = Set(1, 2, 3), UNSTAKES = Set(1, 2),
                COOLS = Set(-1, 0, 1), IDXS = Set(0), STARTS = Set(A)).* from "./design"
}
module deep {
  pure val A = { pool: { vault: 0, escrow: 0, supply: 0 }, orca: Map("alice" -> 151, "bob" -> 151),
                 x: Map("alice" -> 0, "bob" -> 0), claims: Map(), now: 0, cool: 1, auth: "alice" }
  import design(D_OFF = 100, D_MAXU = 100000, D_MAXW = 100000000, D_MAXT = 1000, TIMES = 2, STAKES = Set(1, 150), UNSTAKES = Set(1, 70),
                COOLS = Set(-1, 0, 1), IDXS = Set(0), STARTS = Set(A)).* from "./design"
}
