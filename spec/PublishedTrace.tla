--------------------------- MODULE PublishedTrace ---------------------------
EXTENDS Published, TraceFn
Known == {"mainnet", "sepolia", "goerli", "holesky", "hoodi"}
Parsed(t) == [kind |-> IF t \in Known THEN t ELSE "custom", text |-> t, json |-> t, same |-> TRUE, shown |-> IF t \in Known THEN t ELSE "-"]
\* 64-byte message signed: the ideal scheme ties the signature to key and signing root
Signed(a) ==
  LET m == SigningRoot(a.object, a.domain)
      s == IdealSign(a.sk, m)
      v(sk, object, domain) == IF IdealCheck(<<IdealPk(sk)>>, <<SigningRoot(object, domain)>>, s) THEN "ok" ELSE "err"
  IN [sig |-> s, pk |-> IdealPk(a.sk), same |-> "ok", domain |-> v(a.sk, a.object, a.domain2), object |-> v(a.sk, a.object2, a.domain),
      key |-> v(a.sk2, a.object, a.domain)]
Exp(c) ==
  LET a == c.a IN
  CASE c.op = "const.from" -> ContextFrom(a.preset, a.config)
    [] c.op = "const.file" -> [direct |-> ContextFile(a.config), via |-> ContextFile(a.config)]
    [] c.op = "fork.at" -> [fork |-> ForkAtSlot(a.c, a.slot), version |-> ForkVersion(a.c, ForkAtSlot(a.c, a.slot))]
    [] c.op = "fork.version" -> ForkVersion(a.c, a.fork)
    [] c.op = "fork.parse" -> (IF \E k \in 1..6 : ForkNames[k] = a.text THEN CHOOSE k \in 1..6 : ForkNames[k] = a.text ELSE "err")
    [] c.op = "net.parse" -> Parsed(a.text)
    [] c.op = "net.genesis" -> [genesis |-> GenesisTime(a.text), clock |-> IF a.text \in DOMAIN KnownGenesis THEN ClockOf(a.text) ELSE [none |-> TRUE]]
    [] c.op = "net.typical" -> BAdd(a.min_genesis_time, a.genesis_delay)
    [] c.op = "domain.compute" -> ComputeDomain(a, a.type, a.ver, a.gvr)
    [] c.op = "domain.builder" -> ComputeDomain(a, "ApplicationBuilder", "none", "none")
    [] c.op = "domain.digest" -> ForkDigest(a.ver, a.gvr)
    [] c.op = "domain.root" -> ForkDataRoot(a.ver, a.gvr)
    [] c.op = "domain.signing" -> SigningRoot(a.object, a.domain)
    [] c.op = "domain.signed" -> Signed(a)
    [] c.op = "domain.get" -> GetDomain(a.fork, a.gvr, a.slot, a.spe, a.type, a.e)
Next == Step(Exp)
=============================================================================
