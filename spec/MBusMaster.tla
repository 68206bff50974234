------------------------------ MODULE MBusMaster ------------------------------
(***************************************************************************)
(* The master side of libmbus as a state machine: a program of calls is    *)
(* carried out on a transport; every telegram put on the line is met by a  *)
(* reaction of the environment; everything observable is an event.         *)
(*                                                                         *)
(* The same machine is used to explore all environments (MasterModel*,     *)
(* where the properties of the operations are stated independently of this *)
(* algorithm) and to judge recorded executions of the code (TraceMaster).  *)
(***************************************************************************)
EXTENDS MBusPrograms

CONSTANTS Starts,            \* the cases: configurations with their programs of calls
          Obs0(_),           \* initial observation of a case
          Sees(_, _, _),     \* may these events come next in the observation?
          Observe(_, _, _),  \* observation after them
          React(_, _, _, _)  \* what the environment may do when these bytes were put on the line:
                             \* records of what it queues (q) and its next state (env)

\* which moment it is: one more than the number of telegrams put on the line so far, where this is observed
Now(c, l) == 1

(* --algorithm Master {
variables
  cs \in Starts,
  obs = Obs0(cs),
  bus = cs.pre,          \* what will be read from the transport
  wq = cs.w,             \* outcomes of the writes to come: "o" done, "s" short, "f" failed; then "o"
  env = cs.env,
  sp = First(cs),        \* next call of the program
  x = NoFrame,           \* the call being carried out
  sent = FALSE, res = 0, frm = NoFrame, chain = <<>>, addr = <<>>,
  said = "";             \* what is printed when nobody asked to be notified of a found slave

macro Emit(s) { await Sees(cs, obs, s); obs := Observe(cs, obs, s) }

\* put a telegram on the line
procedure Send(f)
{ Transmit:
    if (~CanSend(cs, f)) { sent := FALSE }
    else {
      with (o = IF wq = <<>> THEN "o" ELSE Head(wq), img = Image(f)) {
        wq := IF wq = <<>> THEN <<>> ELSE Tail(wq);
        if (o = "f") {
          Emit(<< [e |-> "txfail", n |-> Len(img)] >>);
          sent := FALSE }
        else with (d = IF o = "s" THEN SubSeq(img, 1, Len(img) - 1) ELSE img; r \in React(cs, obs, env, d), q = r.q) {
          Emit(<< [e |-> "tx", d |-> d, q |-> q] >> \o (IF o = "o" /\ cs.cb = 1 THEN << [e |-> "scb", k |-> Kind(cs), d |-> d] >> ELSE <<>>));
          env := r.env;
          bus := bus \o q;
          sent := (o = "o") }
      } };
    return }

\* select by secondary address mask m (character codes)
procedure Select(m)
{ SelCheck:
    if (~IsAddress(m)) { res := PROBEERROR; return };
  SelSend:
    call Send(Selection(m));
  SelReply:
    if (~sent) { res := PROBEERROR }
    else with (r = Recv(cs, bus)) {
      with (drain = (r.r = INVALID \/ (r.r = OK /\ r.f.t = ACK)), p = IF drain THEN Purge(cs, r.q) ELSE [got |-> FALSE, q |-> r.q, evs |-> <<>>]) {
        Emit(r.evs \o p.evs);
        bus := p.q;
        res := CASE r.r = TIMEOUT -> NOTHING
                 [] r.r = INVALID -> COLLISION
                 [] r.r \in {ERROR, RESET} -> PROBEERROR
                 [] OTHER -> IF r.f.t # ACK THEN NOTHING ELSE IF p.got THEN COLLISION ELSE SINGLE } };
    return }

\* probe a mask: select, and ask the one device that acknowledged for its address
procedure Probe(pm) variables tries = 0;
{ PrCheck:
    addr := <<>>;
  PrTry:
    call Select(pm);
  PrSelected:
    if (res = NOTHING /\ tries < cs.sr) { tries := tries + 1; goto PrTry }
    else if (res # SINGLE) { return };
  PrAsk:
    call Send(Request(NetworkLayer));
  PrReply:
    if (~sent) { res := PROBEERROR }
    else with (r = Recv(cs, bus)) {
      with (drain = r.r \in {OK, INVALID},
            p = IF drain THEN Purge(cs, r.q) ELSE [got |-> FALSE, q |-> r.q, evs |-> <<>>],
            hit = r.r = OK /\ ~p.got /\ r.f.t = LONG /\ DataOf(r.f).k = "var") {
        Emit(r.evs \o p.evs);
        bus := p.q;
        addr := IF hit THEN SecondaryBytes(r.f) ELSE <<>>;
        frm := IF hit THEN Shown(r.f, Now(cs, obs)) ELSE NoFrame;
        res := CASE r.r = TIMEOUT -> NOTHING
                 [] r.r = INVALID -> COLLISION
                 [] r.r \in {ERROR, RESET} -> PROBEERROR
                 [] OTHER -> IF p.got THEN COLLISION ELSE IF hit THEN SINGLE ELSE NOTHING } };
  PrFound:
    if (res = SINGLE /\ cs.fcb = 1) { Emit(<< [e |-> "found", f |-> frm] >>) };
    frm := NoFrame;
    return }

\* search all masks that refine m from position pos (counted from 0) on; res: 0 done, -1 aborted
procedure Scan(pos, sm) variables todo = <<>>;
{ ScCheck:
    if (Len(sm) # 16) { res := -1; return }
    else if (pos \notin 0..15) { res := 0; return }
    else if (~Wild(sm[pos + 1]) /\ pos < 15) { call Scan(pos + 1, sm); return }
    else { todo := LeadDigits(sm[pos + 1]); res := 0 };
  ScNext:
    if (todo = <<>>) { res := 0; return }
    else {
      if (cs.fcb = 1) { Emit(<< [e |-> "prog", m |-> [sm EXCEPT ![pos + 1] = Head(todo)]] >>) };
      sm[pos + 1] := Head(todo);
      todo := Tail(todo) };
  ScProbe:
    call Probe(sm);
  ScOutcome:
    if (res = PROBEERROR) { res := -1; return }
    else if (res = COLLISION) { call Scan(pos + 1, sm) }
    else {
      if (res = SINGLE /\ cs.fcb = 0) { said := said \o "Found a device on secondary address " \o AddressText(addr) \o " [using address mask " \o MaskText(sm) \o "]%0A" };
      res := 0 };
  ScBack:
    if (res # 0) { return } else { goto ScNext } }

\* read everything a slave has to say
procedure ReadOut(ra, limit) variables fcb = 1, fails = 0, num = 0;
{ RoCheck:
    chain := <<>>;
    if (~Primary(ra)) { res := 1; return };
  RoTry:
    if (fails > cs.dr) { res := 1; return };
  RoAsk:
    call Send(RequestF(ra, fcb));
  RoReply:
    if (~sent) { res := -1; return }
    else with (r = Recv(cs, bus), p = IF r.r \in {OK, INVALID} THEN Purge(cs, r.q) ELSE [got |-> FALSE, q |-> r.q, evs |-> <<>>]) {
      Emit(r.evs \o p.evs);
      bus := p.q;
      res := CASE r.r \in {TIMEOUT, INVALID} -> 2
               [] r.r # OK \/ (r.r = OK /\ DataOf(r.f).k = "bad") -> 1
               [] OTHER -> LET v == DataOf(r.f) IN
                    IF v.k = "var" /\ v.more = 1 /\ (limit <= 0 \/ num + 1 < limit) THEN 3 ELSE 0;
      if (r.r = OK) { chain := Append(chain, r.f @@ [at |-> Now(cs, obs)]); num := num + 1; fails := 0 }
      else if (r.r \in {TIMEOUT, INVALID}) { fails := fails + 1 } };
  RoJudge:     \* 2: ask again, 3: ask for the next telegram
    if (res = 2) { goto RoTry }
    else if (res = 3) { fcb := 1 - fcb; goto RoTry }
    else { return } }

procedure ReadSlave(prim, ta, tm)
{ RsSelect:
    frm := NoFrame;
    if (prim = 0) { call Select(tm) } else { res := SINGLE };
  RsAsk:
    if (res # SINGLE \/ (prim = 1 /\ ~Primary(ta))) { res := -1; return }
    else { call Send(Request(IF prim = 1 THEN ta ELSE NetworkLayer)) };
  RsReply:
    if (~sent) { res := -1 }
    else with (r = Recv(cs, bus)) {
      Emit(r.evs);
      bus := r.q;
      if (r.r = OK) { frm := Shown(r.f, Now(cs, obs)); res := 0 } else { res := -1 } };
    return }

{ Call:
    while (Goes(cs, sp)) {
      x := CallAt(cs, sp);
      Emit(IF IsProgram(cs) THEN <<>> ELSE << [e |-> "call", op |-> cs.script[sp].op] >>);
    Do:
      if (x.op \in SimpleOps) {
        if (Valid(x)) { call Send(Telegram(x)) } else { sent := FALSE } }
      else if (x.op \in {"recv", "drecv"}) {
        with (r = IF x.op = "recv" THEN Recv(cs, bus) ELSE LET y == DeviceRecv(cs, bus) IN [r |-> y.r, f |-> y.f, q |-> y.q, evs |-> Reported(cs, y)]) {
          Emit(r.evs); bus := r.q; res := r.r; frm := IF r.r = OK THEN Shown(r.f, IF x.op = "recv" THEN Now(cs, obs) ELSE 0) ELSE NoFrame } }
      else if (x.op = "purge") { with (p = Purge(cs, bus)) { Emit(p.evs); bus := p.q; res := IF p.got THEN 1 ELSE 0 } }
      else if (x.op \in {"recvn", "sendn", "none"}) { res := -1 }
      else if (x.op = "select") { call Select(x.m) }
      else if (x.op = "probe") { call Probe(x.m) }
      else if (x.op = "scan") { call Scan(x.pos, x.m) }
      else if (x.op = "rr") { call ReadOut(x.addr, x.max) }
      else if (x.op = "read") { call ReadSlave(x.prim, x.addr, x.m) };
    Drained:       \* a ping may be asked to discard the answers
      if (x.op \in SimpleOps) {
        res := IF sent THEN 0 ELSE -1;
        if (x.op = "ping" /\ x.purge = 1 /\ sent) { with (p = Purge(cs, bus)) { Emit(p.evs); bus := p.q } } };
    Return:
      with (h = [e |-> "ret", v |-> IF x.op \in {"rr", "scan", "read"} /\ res # 0 THEN -1 ELSE res, lb |-> LeftBytes(bus), li |-> Len(bus)]) {
        Emit(IF IsProgram(cs) THEN <<>> ELSE << IF x.op \in {"recv", "drecv", "read"} THEN h @@ [f |-> frm]
                ELSE IF x.op = "probe" THEN h @@ [m |-> IF res = SINGLE THEN AddressText(addr) ELSE ""]
                ELSE IF x.op = "rr" THEN h @@ [ch |-> IF res = 0 THEN [k \in 1..Len(chain) |-> Shown(chain[k], chain[k].at)] ELSE <<>>]
                ELSE IF x.op = "scan" THEN h @@ [m |-> x.m]
                ELSE h >> \o (IF said = "" THEN <<>> ELSE << [e |-> "out", s |-> said] >>));
        with (go = NextAt(cs, sp, res, frm, chain)) {
          said := IF IsProgram(cs) THEN said \o go.out ELSE "";
          sp := go.sp } } };
  Close:
    Emit(IF IsProgram(cs) THEN << [e |-> "exit", rc |-> sp.rc, out |-> said, doc |-> sp.doc] >>
         ELSE << [e |-> "close", fd |-> 0], [e |-> "end", live |-> 0, fds |-> 0] >>) }
} *)
\* BEGIN TRANSLATION (chksum(pcal) = "4225aea5" /\ chksum(tla) = "e04a8522")
CONSTANT defaultInitValue
VARIABLES pc, cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, addr, said, 
          stack, f, m, pm, tries, pos, sm, todo, ra, limit, fcb, fails, num, 
          prim, ta, tm

vars == << pc, cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, addr, 
           said, stack, f, m, pm, tries, pos, sm, todo, ra, limit, fcb, fails, 
           num, prim, ta, tm >>

Init == (* Global variables *)
        /\ cs \in Starts
        /\ obs = Obs0(cs)
        /\ bus = cs.pre
        /\ wq = cs.w
        /\ env = cs.env
        /\ sp = First(cs)
        /\ x = NoFrame
        /\ sent = FALSE
        /\ res = 0
        /\ frm = NoFrame
        /\ chain = <<>>
        /\ addr = <<>>
        /\ said = ""
        (* Procedure Send *)
        /\ f = defaultInitValue
        (* Procedure Select *)
        /\ m = defaultInitValue
        (* Procedure Probe *)
        /\ pm = defaultInitValue
        /\ tries = 0
        (* Procedure Scan *)
        /\ pos = defaultInitValue
        /\ sm = defaultInitValue
        /\ todo = <<>>
        (* Procedure ReadOut *)
        /\ ra = defaultInitValue
        /\ limit = defaultInitValue
        /\ fcb = 1
        /\ fails = 0
        /\ num = 0
        (* Procedure ReadSlave *)
        /\ prim = defaultInitValue
        /\ ta = defaultInitValue
        /\ tm = defaultInitValue
        /\ stack = << >>
        /\ pc = "Call"

Transmit == /\ pc = "Transmit"
            /\ IF ~CanSend(cs, f)
                  THEN /\ sent' = FALSE
                       /\ UNCHANGED << obs, bus, wq, env >>
                  ELSE /\ LET o == IF wq = <<>> THEN "o" ELSE Head(wq) IN
                            LET img == Image(f) IN
                              /\ wq' = (IF wq = <<>> THEN <<>> ELSE Tail(wq))
                              /\ IF o = "f"
                                    THEN /\ Sees(cs, obs, (<< [e |-> "txfail", n |-> Len(img)] >>))
                                         /\ obs' = Observe(cs, obs, (<< [e |-> "txfail", n |-> Len(img)] >>))
                                         /\ sent' = FALSE
                                         /\ UNCHANGED << bus, env >>
                                    ELSE /\ LET d == IF o = "s" THEN SubSeq(img, 1, Len(img) - 1) ELSE img IN
                                              \E r \in React(cs, obs, env, d):
                                                LET q == r.q IN
                                                  /\ Sees(cs, obs, (<< [e |-> "tx", d |-> d, q |-> q] >> \o (IF o = "o" /\ cs.cb = 1 THEN << [e |-> "scb", k |-> Kind(cs), d |-> d] >> ELSE <<>>)))
                                                  /\ obs' = Observe(cs, obs, (<< [e |-> "tx", d |-> d, q |-> q] >> \o (IF o = "o" /\ cs.cb = 1 THEN << [e |-> "scb", k |-> Kind(cs), d |-> d] >> ELSE <<>>)))
                                                  /\ env' = r.env
                                                  /\ bus' = bus \o q
                                                  /\ sent' = (o = "o")
            /\ pc' = Head(stack).pc
            /\ f' = Head(stack).f
            /\ stack' = Tail(stack)
            /\ UNCHANGED << cs, sp, x, res, frm, chain, addr, said, m, pm, 
                            tries, pos, sm, todo, ra, limit, fcb, fails, num, 
                            prim, ta, tm >>

Send == Transmit

SelCheck == /\ pc = "SelCheck"
            /\ IF ~IsAddress(m)
                  THEN /\ res' = PROBEERROR
                       /\ pc' = Head(stack).pc
                       /\ m' = Head(stack).m
                       /\ stack' = Tail(stack)
                  ELSE /\ pc' = "SelSend"
                       /\ UNCHANGED << res, stack, m >>
            /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, frm, chain, 
                            addr, said, f, pm, tries, pos, sm, todo, ra, limit, 
                            fcb, fails, num, prim, ta, tm >>

SelSend == /\ pc = "SelSend"
           /\ /\ f' = Selection(m)
              /\ stack' = << [ procedure |->  "Send",
                               pc        |->  "SelReply",
                               f         |->  f ] >>
                           \o stack
           /\ pc' = "Transmit"
           /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, 
                           addr, said, m, pm, tries, pos, sm, todo, ra, limit, 
                           fcb, fails, num, prim, ta, tm >>

SelReply == /\ pc = "SelReply"
            /\ IF ~sent
                  THEN /\ res' = PROBEERROR
                       /\ UNCHANGED << obs, bus >>
                  ELSE /\ LET r == Recv(cs, bus) IN
                            LET drain == (r.r = INVALID \/ (r.r = OK /\ r.f.t = ACK)) IN
                              LET p == IF drain THEN Purge(cs, r.q) ELSE [got |-> FALSE, q |-> r.q, evs |-> <<>>] IN
                                /\ Sees(cs, obs, (r.evs \o p.evs))
                                /\ obs' = Observe(cs, obs, (r.evs \o p.evs))
                                /\ bus' = p.q
                                /\ res' = (CASE r.r = TIMEOUT -> NOTHING
                                             [] r.r = INVALID -> COLLISION
                                             [] r.r \in {ERROR, RESET} -> PROBEERROR
                                             [] OTHER -> IF r.f.t # ACK THEN NOTHING ELSE IF p.got THEN COLLISION ELSE SINGLE)
            /\ pc' = Head(stack).pc
            /\ m' = Head(stack).m
            /\ stack' = Tail(stack)
            /\ UNCHANGED << cs, wq, env, sp, x, sent, frm, chain, addr, said, 
                            f, pm, tries, pos, sm, todo, ra, limit, fcb, fails, 
                            num, prim, ta, tm >>

Select == SelCheck \/ SelSend \/ SelReply

PrCheck == /\ pc = "PrCheck"
           /\ addr' = <<>>
           /\ pc' = "PrTry"
           /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, 
                           said, stack, f, m, pm, tries, pos, sm, todo, ra, 
                           limit, fcb, fails, num, prim, ta, tm >>

PrTry == /\ pc = "PrTry"
         /\ /\ m' = pm
            /\ stack' = << [ procedure |->  "Select",
                             pc        |->  "PrSelected",
                             m         |->  m ] >>
                         \o stack
         /\ pc' = "SelCheck"
         /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, 
                         addr, said, f, pm, tries, pos, sm, todo, ra, limit, 
                         fcb, fails, num, prim, ta, tm >>

PrSelected == /\ pc = "PrSelected"
              /\ IF res = NOTHING /\ tries < cs.sr
                    THEN /\ tries' = tries + 1
                         /\ pc' = "PrTry"
                         /\ UNCHANGED << stack, pm >>
                    ELSE /\ IF res # SINGLE
                               THEN /\ pc' = Head(stack).pc
                                    /\ tries' = Head(stack).tries
                                    /\ pm' = Head(stack).pm
                                    /\ stack' = Tail(stack)
                               ELSE /\ pc' = "PrAsk"
                                    /\ UNCHANGED << stack, pm, tries >>
              /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, 
                              chain, addr, said, f, m, pos, sm, todo, ra, 
                              limit, fcb, fails, num, prim, ta, tm >>

PrAsk == /\ pc = "PrAsk"
         /\ /\ f' = Request(NetworkLayer)
            /\ stack' = << [ procedure |->  "Send",
                             pc        |->  "PrReply",
                             f         |->  f ] >>
                         \o stack
         /\ pc' = "Transmit"
         /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, 
                         addr, said, m, pm, tries, pos, sm, todo, ra, limit, 
                         fcb, fails, num, prim, ta, tm >>

PrReply == /\ pc = "PrReply"
           /\ IF ~sent
                 THEN /\ res' = PROBEERROR
                      /\ UNCHANGED << obs, bus, frm, addr >>
                 ELSE /\ LET r == Recv(cs, bus) IN
                           LET drain == r.r \in {OK, INVALID} IN
                             LET p == IF drain THEN Purge(cs, r.q) ELSE [got |-> FALSE, q |-> r.q, evs |-> <<>>] IN
                               LET hit == r.r = OK /\ ~p.got /\ r.f.t = LONG /\ DataOf(r.f).k = "var" IN
                                 /\ Sees(cs, obs, (r.evs \o p.evs))
                                 /\ obs' = Observe(cs, obs, (r.evs \o p.evs))
                                 /\ bus' = p.q
                                 /\ addr' = IF hit THEN SecondaryBytes(r.f) ELSE <<>>
                                 /\ frm' = IF hit THEN Shown(r.f, Now(cs, obs')) ELSE NoFrame
                                 /\ res' = (CASE r.r = TIMEOUT -> NOTHING
                                              [] r.r = INVALID -> COLLISION
                                              [] r.r \in {ERROR, RESET} -> PROBEERROR
                                              [] OTHER -> IF p.got THEN COLLISION ELSE IF hit THEN SINGLE ELSE NOTHING)
           /\ pc' = "PrFound"
           /\ UNCHANGED << cs, wq, env, sp, x, sent, chain, said, stack, f, m, 
                           pm, tries, pos, sm, todo, ra, limit, fcb, fails, 
                           num, prim, ta, tm >>

PrFound == /\ pc = "PrFound"
           /\ IF res = SINGLE /\ cs.fcb = 1
                 THEN /\ Sees(cs, obs, (<< [e |-> "found", f |-> frm] >>))
                      /\ obs' = Observe(cs, obs, (<< [e |-> "found", f |-> frm] >>))
                 ELSE /\ TRUE
                      /\ obs' = obs
           /\ frm' = NoFrame
           /\ pc' = Head(stack).pc
           /\ tries' = Head(stack).tries
           /\ pm' = Head(stack).pm
           /\ stack' = Tail(stack)
           /\ UNCHANGED << cs, bus, wq, env, sp, x, sent, res, chain, addr, 
                           said, f, m, pos, sm, todo, ra, limit, fcb, fails, 
                           num, prim, ta, tm >>

Probe == PrCheck \/ PrTry \/ PrSelected \/ PrAsk \/ PrReply \/ PrFound

ScCheck == /\ pc = "ScCheck"
           /\ IF Len(sm) # 16
                 THEN /\ res' = -1
                      /\ pc' = Head(stack).pc
                      /\ todo' = Head(stack).todo
                      /\ pos' = Head(stack).pos
                      /\ sm' = Head(stack).sm
                      /\ stack' = Tail(stack)
                 ELSE /\ IF pos \notin 0..15
                            THEN /\ res' = 0
                                 /\ pc' = Head(stack).pc
                                 /\ todo' = Head(stack).todo
                                 /\ pos' = Head(stack).pos
                                 /\ sm' = Head(stack).sm
                                 /\ stack' = Tail(stack)
                            ELSE /\ IF ~Wild(sm[pos + 1]) /\ pos < 15
                                       THEN /\ /\ pos' = pos + 1
                                               /\ sm' = sm
                                            /\ todo' = <<>>
                                            /\ pc' = "ScCheck"
                                            /\ res' = res
                                       ELSE /\ todo' = LeadDigits(sm[pos + 1])
                                            /\ res' = 0
                                            /\ pc' = "ScNext"
                                            /\ UNCHANGED << pos, sm >>
                                 /\ stack' = stack
           /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, frm, chain, 
                           addr, said, f, m, pm, tries, ra, limit, fcb, fails, 
                           num, prim, ta, tm >>

ScNext == /\ pc = "ScNext"
          /\ IF todo = <<>>
                THEN /\ res' = 0
                     /\ pc' = Head(stack).pc
                     /\ todo' = Head(stack).todo
                     /\ pos' = Head(stack).pos
                     /\ sm' = Head(stack).sm
                     /\ stack' = Tail(stack)
                     /\ obs' = obs
                ELSE /\ IF cs.fcb = 1
                           THEN /\ Sees(cs, obs, (<< [e |-> "prog", m |-> [sm EXCEPT ![pos + 1] = Head(todo)]] >>))
                                /\ obs' = Observe(cs, obs, (<< [e |-> "prog", m |-> [sm EXCEPT ![pos + 1] = Head(todo)]] >>))
                           ELSE /\ TRUE
                                /\ obs' = obs
                     /\ sm' = [sm EXCEPT ![pos + 1] = Head(todo)]
                     /\ todo' = Tail(todo)
                     /\ pc' = "ScProbe"
                     /\ UNCHANGED << res, stack, pos >>
          /\ UNCHANGED << cs, bus, wq, env, sp, x, sent, frm, chain, addr, 
                          said, f, m, pm, tries, ra, limit, fcb, fails, num, 
                          prim, ta, tm >>

ScProbe == /\ pc = "ScProbe"
           /\ /\ pm' = sm
              /\ stack' = << [ procedure |->  "Probe",
                               pc        |->  "ScOutcome",
                               tries     |->  tries,
                               pm        |->  pm ] >>
                           \o stack
           /\ tries' = 0
           /\ pc' = "PrCheck"
           /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, 
                           addr, said, f, m, pos, sm, todo, ra, limit, fcb, 
                           fails, num, prim, ta, tm >>

ScOutcome == /\ pc = "ScOutcome"
             /\ IF res = PROBEERROR
                   THEN /\ res' = -1
                        /\ pc' = Head(stack).pc
                        /\ todo' = Head(stack).todo
                        /\ pos' = Head(stack).pos
                        /\ sm' = Head(stack).sm
                        /\ stack' = Tail(stack)
                        /\ said' = said
                   ELSE /\ IF res = COLLISION
                              THEN /\ /\ pos' = pos + 1
                                      /\ sm' = sm
                                      /\ stack' = << [ procedure |->  "Scan",
                                                       pc        |->  "ScBack",
                                                       todo      |->  todo,
                                                       pos       |->  pos,
                                                       sm        |->  sm ] >>
                                                   \o stack
                                   /\ todo' = <<>>
                                   /\ pc' = "ScCheck"
                                   /\ UNCHANGED << res, said >>
                              ELSE /\ IF res = SINGLE /\ cs.fcb = 0
                                         THEN /\ said' = said \o "Found a device on secondary address " \o AddressText(addr) \o " [using address mask " \o MaskText(sm) \o "]%0A"
                                         ELSE /\ TRUE
                                              /\ said' = said
                                   /\ res' = 0
                                   /\ pc' = "ScBack"
                                   /\ UNCHANGED << stack, pos, sm, todo >>
             /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, frm, chain, 
                             addr, f, m, pm, tries, ra, limit, fcb, fails, num, 
                             prim, ta, tm >>

ScBack == /\ pc = "ScBack"
          /\ IF res # 0
                THEN /\ pc' = Head(stack).pc
                     /\ todo' = Head(stack).todo
                     /\ pos' = Head(stack).pos
                     /\ sm' = Head(stack).sm
                     /\ stack' = Tail(stack)
                ELSE /\ pc' = "ScNext"
                     /\ UNCHANGED << stack, pos, sm, todo >>
          /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, 
                          addr, said, f, m, pm, tries, ra, limit, fcb, fails, 
                          num, prim, ta, tm >>

Scan == ScCheck \/ ScNext \/ ScProbe \/ ScOutcome \/ ScBack

RoCheck == /\ pc = "RoCheck"
           /\ chain' = <<>>
           /\ IF ~Primary(ra)
                 THEN /\ res' = 1
                      /\ pc' = Head(stack).pc
                      /\ fcb' = Head(stack).fcb
                      /\ fails' = Head(stack).fails
                      /\ num' = Head(stack).num
                      /\ ra' = Head(stack).ra
                      /\ limit' = Head(stack).limit
                      /\ stack' = Tail(stack)
                 ELSE /\ pc' = "RoTry"
                      /\ UNCHANGED << res, stack, ra, limit, fcb, fails, num >>
           /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, frm, addr, said, 
                           f, m, pm, tries, pos, sm, todo, prim, ta, tm >>

RoTry == /\ pc = "RoTry"
         /\ IF fails > cs.dr
               THEN /\ res' = 1
                    /\ pc' = Head(stack).pc
                    /\ fcb' = Head(stack).fcb
                    /\ fails' = Head(stack).fails
                    /\ num' = Head(stack).num
                    /\ ra' = Head(stack).ra
                    /\ limit' = Head(stack).limit
                    /\ stack' = Tail(stack)
               ELSE /\ pc' = "RoAsk"
                    /\ UNCHANGED << res, stack, ra, limit, fcb, fails, num >>
         /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, frm, chain, addr, 
                         said, f, m, pm, tries, pos, sm, todo, prim, ta, tm >>

RoAsk == /\ pc = "RoAsk"
         /\ /\ f' = RequestF(ra, fcb)
            /\ stack' = << [ procedure |->  "Send",
                             pc        |->  "RoReply",
                             f         |->  f ] >>
                         \o stack
         /\ pc' = "Transmit"
         /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, 
                         addr, said, m, pm, tries, pos, sm, todo, ra, limit, 
                         fcb, fails, num, prim, ta, tm >>

RoReply == /\ pc = "RoReply"
           /\ IF ~sent
                 THEN /\ res' = -1
                      /\ pc' = Head(stack).pc
                      /\ fcb' = Head(stack).fcb
                      /\ fails' = Head(stack).fails
                      /\ num' = Head(stack).num
                      /\ ra' = Head(stack).ra
                      /\ limit' = Head(stack).limit
                      /\ stack' = Tail(stack)
                      /\ UNCHANGED << obs, bus, chain >>
                 ELSE /\ LET r == Recv(cs, bus) IN
                           LET p == IF r.r \in {OK, INVALID} THEN Purge(cs, r.q) ELSE [got |-> FALSE, q |-> r.q, evs |-> <<>>] IN
                             /\ Sees(cs, obs, (r.evs \o p.evs))
                             /\ obs' = Observe(cs, obs, (r.evs \o p.evs))
                             /\ bus' = p.q
                             /\ res' = (CASE r.r \in {TIMEOUT, INVALID} -> 2
                                          [] r.r # OK \/ (r.r = OK /\ DataOf(r.f).k = "bad") -> 1
                                          [] OTHER -> LET v == DataOf(r.f) IN
                                               IF v.k = "var" /\ v.more = 1 /\ (limit <= 0 \/ num + 1 < limit) THEN 3 ELSE 0)
                             /\ IF r.r = OK
                                   THEN /\ chain' = Append(chain, r.f @@ [at |-> Now(cs, obs')])
                                        /\ num' = num + 1
                                        /\ fails' = 0
                                   ELSE /\ IF r.r \in {TIMEOUT, INVALID}
                                              THEN /\ fails' = fails + 1
                                              ELSE /\ TRUE
                                                   /\ fails' = fails
                                        /\ UNCHANGED << chain, num >>
                      /\ pc' = "RoJudge"
                      /\ UNCHANGED << stack, ra, limit, fcb >>
           /\ UNCHANGED << cs, wq, env, sp, x, sent, frm, addr, said, f, m, pm, 
                           tries, pos, sm, todo, prim, ta, tm >>

RoJudge == /\ pc = "RoJudge"
           /\ IF res = 2
                 THEN /\ pc' = "RoTry"
                      /\ UNCHANGED << stack, ra, limit, fcb, fails, num >>
                 ELSE /\ IF res = 3
                            THEN /\ fcb' = 1 - fcb
                                 /\ pc' = "RoTry"
                                 /\ UNCHANGED << stack, ra, limit, fails, num >>
                            ELSE /\ pc' = Head(stack).pc
                                 /\ fcb' = Head(stack).fcb
                                 /\ fails' = Head(stack).fails
                                 /\ num' = Head(stack).num
                                 /\ ra' = Head(stack).ra
                                 /\ limit' = Head(stack).limit
                                 /\ stack' = Tail(stack)
           /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, res, frm, chain, 
                           addr, said, f, m, pm, tries, pos, sm, todo, prim, 
                           ta, tm >>

ReadOut == RoCheck \/ RoTry \/ RoAsk \/ RoReply \/ RoJudge

RsSelect == /\ pc = "RsSelect"
            /\ frm' = NoFrame
            /\ IF prim = 0
                  THEN /\ /\ m' = tm
                          /\ stack' = << [ procedure |->  "Select",
                                           pc        |->  "RsAsk",
                                           m         |->  m ] >>
                                       \o stack
                       /\ pc' = "SelCheck"
                       /\ res' = res
                  ELSE /\ res' = SINGLE
                       /\ pc' = "RsAsk"
                       /\ UNCHANGED << stack, m >>
            /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, chain, addr, 
                            said, f, pm, tries, pos, sm, todo, ra, limit, fcb, 
                            fails, num, prim, ta, tm >>

RsAsk == /\ pc = "RsAsk"
         /\ IF res # SINGLE \/ (prim = 1 /\ ~Primary(ta))
               THEN /\ res' = -1
                    /\ pc' = Head(stack).pc
                    /\ prim' = Head(stack).prim
                    /\ ta' = Head(stack).ta
                    /\ tm' = Head(stack).tm
                    /\ stack' = Tail(stack)
                    /\ f' = f
               ELSE /\ /\ f' = Request(IF prim = 1 THEN ta ELSE NetworkLayer)
                       /\ stack' = << [ procedure |->  "Send",
                                        pc        |->  "RsReply",
                                        f         |->  f ] >>
                                    \o stack
                    /\ pc' = "Transmit"
                    /\ UNCHANGED << res, prim, ta, tm >>
         /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, frm, chain, addr, 
                         said, m, pm, tries, pos, sm, todo, ra, limit, fcb, 
                         fails, num >>

RsReply == /\ pc = "RsReply"
           /\ IF ~sent
                 THEN /\ res' = -1
                      /\ UNCHANGED << obs, bus, frm >>
                 ELSE /\ LET r == Recv(cs, bus) IN
                           /\ Sees(cs, obs, (r.evs))
                           /\ obs' = Observe(cs, obs, (r.evs))
                           /\ bus' = r.q
                           /\ IF r.r = OK
                                 THEN /\ frm' = Shown(r.f, Now(cs, obs'))
                                      /\ res' = 0
                                 ELSE /\ res' = -1
                                      /\ frm' = frm
           /\ pc' = Head(stack).pc
           /\ prim' = Head(stack).prim
           /\ ta' = Head(stack).ta
           /\ tm' = Head(stack).tm
           /\ stack' = Tail(stack)
           /\ UNCHANGED << cs, wq, env, sp, x, sent, chain, addr, said, f, m, 
                           pm, tries, pos, sm, todo, ra, limit, fcb, fails, 
                           num >>

ReadSlave == RsSelect \/ RsAsk \/ RsReply

Call == /\ pc = "Call"
        /\ IF Goes(cs, sp)
              THEN /\ x' = CallAt(cs, sp)
                   /\ Sees(cs, obs, (IF IsProgram(cs) THEN <<>> ELSE << [e |-> "call", op |-> cs.script[sp].op] >>))
                   /\ obs' = Observe(cs, obs, (IF IsProgram(cs) THEN <<>> ELSE << [e |-> "call", op |-> cs.script[sp].op] >>))
                   /\ pc' = "Do"
              ELSE /\ pc' = "Close"
                   /\ UNCHANGED << obs, x >>
        /\ UNCHANGED << cs, bus, wq, env, sp, sent, res, frm, chain, addr, 
                        said, stack, f, m, pm, tries, pos, sm, todo, ra, limit, 
                        fcb, fails, num, prim, ta, tm >>

Do == /\ pc = "Do"
      /\ IF x.op \in SimpleOps
            THEN /\ IF Valid(x)
                       THEN /\ /\ f' = Telegram(x)
                               /\ stack' = << [ procedure |->  "Send",
                                                pc        |->  "Drained",
                                                f         |->  f ] >>
                                            \o stack
                            /\ pc' = "Transmit"
                            /\ sent' = sent
                       ELSE /\ sent' = FALSE
                            /\ pc' = "Drained"
                            /\ UNCHANGED << stack, f >>
                 /\ UNCHANGED << obs, bus, res, frm, m, pm, tries, pos, sm, 
                                 todo, ra, limit, fcb, fails, num, prim, ta, 
                                 tm >>
            ELSE /\ IF x.op \in {"recv", "drecv"}
                       THEN /\ LET r == IF x.op = "recv" THEN Recv(cs, bus) ELSE LET y == DeviceRecv(cs, bus) IN [r |-> y.r, f |-> y.f, q |-> y.q, evs |-> Reported(cs, y)] IN
                                 /\ Sees(cs, obs, (r.evs))
                                 /\ obs' = Observe(cs, obs, (r.evs))
                                 /\ bus' = r.q
                                 /\ res' = r.r
                                 /\ frm' = (IF r.r = OK THEN Shown(r.f, IF x.op = "recv" THEN Now(cs, obs') ELSE 0) ELSE NoFrame)
                            /\ pc' = "Drained"
                            /\ UNCHANGED << stack, m, pm, tries, pos, sm, todo, 
                                            ra, limit, fcb, fails, num, prim, 
                                            ta, tm >>
                       ELSE /\ IF x.op = "purge"
                                  THEN /\ LET p == Purge(cs, bus) IN
                                            /\ Sees(cs, obs, (p.evs))
                                            /\ obs' = Observe(cs, obs, (p.evs))
                                            /\ bus' = p.q
                                            /\ res' = IF p.got THEN 1 ELSE 0
                                       /\ pc' = "Drained"
                                       /\ UNCHANGED << stack, m, pm, tries, 
                                                       pos, sm, todo, ra, 
                                                       limit, fcb, fails, num, 
                                                       prim, ta, tm >>
                                  ELSE /\ IF x.op \in {"recvn", "sendn", "none"}
                                             THEN /\ res' = -1
                                                  /\ pc' = "Drained"
                                                  /\ UNCHANGED << stack, m, pm, 
                                                                  tries, pos, 
                                                                  sm, todo, ra, 
                                                                  limit, fcb, 
                                                                  fails, num, 
                                                                  prim, ta, tm >>
                                             ELSE /\ IF x.op = "select"
                                                        THEN /\ /\ m' = x.m
                                                                /\ stack' = << [ procedure |->  "Select",
                                                                                 pc        |->  "Drained",
                                                                                 m         |->  m ] >>
                                                                             \o stack
                                                             /\ pc' = "SelCheck"
                                                             /\ UNCHANGED << pm, 
                                                                             tries, 
                                                                             pos, 
                                                                             sm, 
                                                                             todo, 
                                                                             ra, 
                                                                             limit, 
                                                                             fcb, 
                                                                             fails, 
                                                                             num, 
                                                                             prim, 
                                                                             ta, 
                                                                             tm >>
                                                        ELSE /\ IF x.op = "probe"
                                                                   THEN /\ /\ pm' = x.m
                                                                           /\ stack' = << [ procedure |->  "Probe",
                                                                                            pc        |->  "Drained",
                                                                                            tries     |->  tries,
                                                                                            pm        |->  pm ] >>
                                                                                        \o stack
                                                                        /\ tries' = 0
                                                                        /\ pc' = "PrCheck"
                                                                        /\ UNCHANGED << pos, 
                                                                                        sm, 
                                                                                        todo, 
                                                                                        ra, 
                                                                                        limit, 
                                                                                        fcb, 
                                                                                        fails, 
                                                                                        num, 
                                                                                        prim, 
                                                                                        ta, 
                                                                                        tm >>
                                                                   ELSE /\ IF x.op = "scan"
                                                                              THEN /\ /\ pos' = x.pos
                                                                                      /\ sm' = x.m
                                                                                      /\ stack' = << [ procedure |->  "Scan",
                                                                                                       pc        |->  "Drained",
                                                                                                       todo      |->  todo,
                                                                                                       pos       |->  pos,
                                                                                                       sm        |->  sm ] >>
                                                                                                   \o stack
                                                                                   /\ todo' = <<>>
                                                                                   /\ pc' = "ScCheck"
                                                                                   /\ UNCHANGED << ra, 
                                                                                                   limit, 
                                                                                                   fcb, 
                                                                                                   fails, 
                                                                                                   num, 
                                                                                                   prim, 
                                                                                                   ta, 
                                                                                                   tm >>
                                                                              ELSE /\ IF x.op = "rr"
                                                                                         THEN /\ /\ limit' = x.max
                                                                                                 /\ ra' = x.addr
                                                                                                 /\ stack' = << [ procedure |->  "ReadOut",
                                                                                                                  pc        |->  "Drained",
                                                                                                                  fcb       |->  fcb,
                                                                                                                  fails     |->  fails,
                                                                                                                  num       |->  num,
                                                                                                                  ra        |->  ra,
                                                                                                                  limit     |->  limit ] >>
                                                                                                              \o stack
                                                                                              /\ fcb' = 1
                                                                                              /\ fails' = 0
                                                                                              /\ num' = 0
                                                                                              /\ pc' = "RoCheck"
                                                                                              /\ UNCHANGED << prim, 
                                                                                                              ta, 
                                                                                                              tm >>
                                                                                         ELSE /\ IF x.op = "read"
                                                                                                    THEN /\ /\ prim' = x.prim
                                                                                                            /\ stack' = << [ procedure |->  "ReadSlave",
                                                                                                                             pc        |->  "Drained",
                                                                                                                             prim      |->  prim,
                                                                                                                             ta        |->  ta,
                                                                                                                             tm        |->  tm ] >>
                                                                                                                         \o stack
                                                                                                            /\ ta' = x.addr
                                                                                                            /\ tm' = x.m
                                                                                                         /\ pc' = "RsSelect"
                                                                                                    ELSE /\ pc' = "Drained"
                                                                                                         /\ UNCHANGED << stack, 
                                                                                                                         prim, 
                                                                                                                         ta, 
                                                                                                                         tm >>
                                                                                              /\ UNCHANGED << ra, 
                                                                                                              limit, 
                                                                                                              fcb, 
                                                                                                              fails, 
                                                                                                              num >>
                                                                                   /\ UNCHANGED << pos, 
                                                                                                   sm, 
                                                                                                   todo >>
                                                                        /\ UNCHANGED << pm, 
                                                                                        tries >>
                                                             /\ m' = m
                                                  /\ res' = res
                                       /\ UNCHANGED << obs, bus >>
                            /\ frm' = frm
                 /\ UNCHANGED << sent, f >>
      /\ UNCHANGED << cs, wq, env, sp, x, chain, addr, said >>

Drained == /\ pc = "Drained"
           /\ IF x.op \in SimpleOps
                 THEN /\ res' = IF sent THEN 0 ELSE -1
                      /\ IF x.op = "ping" /\ x.purge = 1 /\ sent
                            THEN /\ LET p == Purge(cs, bus) IN
                                      /\ Sees(cs, obs, (p.evs))
                                      /\ obs' = Observe(cs, obs, (p.evs))
                                      /\ bus' = p.q
                            ELSE /\ TRUE
                                 /\ UNCHANGED << obs, bus >>
                 ELSE /\ TRUE
                      /\ UNCHANGED << obs, bus, res >>
           /\ pc' = "Return"
           /\ UNCHANGED << cs, wq, env, sp, x, sent, frm, chain, addr, said, 
                           stack, f, m, pm, tries, pos, sm, todo, ra, limit, 
                           fcb, fails, num, prim, ta, tm >>

Return == /\ pc = "Return"
          /\ LET h == [e |-> "ret", v |-> IF x.op \in {"rr", "scan", "read"} /\ res # 0 THEN -1 ELSE res, lb |-> LeftBytes(bus), li |-> Len(bus)] IN
               /\ Sees(cs, obs, (IF IsProgram(cs) THEN <<>> ELSE << IF x.op \in {"recv", "drecv", "read"} THEN h @@ [f |-> frm]
                                    ELSE IF x.op = "probe" THEN h @@ [m |-> IF res = SINGLE THEN AddressText(addr) ELSE ""]
                                    ELSE IF x.op = "rr" THEN h @@ [ch |-> IF res = 0 THEN [k \in 1..Len(chain) |-> Shown(chain[k], chain[k].at)] ELSE <<>>]
                                    ELSE IF x.op = "scan" THEN h @@ [m |-> x.m]
                                    ELSE h >> \o (IF said = "" THEN <<>> ELSE << [e |-> "out", s |-> said] >>)))
               /\ obs' = Observe(cs, obs, (IF IsProgram(cs) THEN <<>> ELSE << IF x.op \in {"recv", "drecv", "read"} THEN h @@ [f |-> frm]
                                              ELSE IF x.op = "probe" THEN h @@ [m |-> IF res = SINGLE THEN AddressText(addr) ELSE ""]
                                              ELSE IF x.op = "rr" THEN h @@ [ch |-> IF res = 0 THEN [k \in 1..Len(chain) |-> Shown(chain[k], chain[k].at)] ELSE <<>>]
                                              ELSE IF x.op = "scan" THEN h @@ [m |-> x.m]
                                              ELSE h >> \o (IF said = "" THEN <<>> ELSE << [e |-> "out", s |-> said] >>)))
               /\ LET go == NextAt(cs, sp, res, frm, chain) IN
                    /\ said' = IF IsProgram(cs) THEN said \o go.out ELSE ""
                    /\ sp' = go.sp
          /\ pc' = "Call"
          /\ UNCHANGED << cs, bus, wq, env, x, sent, res, frm, chain, addr, 
                          stack, f, m, pm, tries, pos, sm, todo, ra, limit, 
                          fcb, fails, num, prim, ta, tm >>

Close == /\ pc = "Close"
         /\ Sees(cs, obs, (IF IsProgram(cs) THEN << [e |-> "exit", rc |-> sp.rc, out |-> said, doc |-> sp.doc] >>
                           ELSE << [e |-> "close", fd |-> 0], [e |-> "end", live |-> 0, fds |-> 0] >>))
         /\ obs' = Observe(cs, obs, (IF IsProgram(cs) THEN << [e |-> "exit", rc |-> sp.rc, out |-> said, doc |-> sp.doc] >>
                                     ELSE << [e |-> "close", fd |-> 0], [e |-> "end", live |-> 0, fds |-> 0] >>))
         /\ pc' = "Done"
         /\ UNCHANGED << cs, bus, wq, env, sp, x, sent, res, frm, chain, addr, 
                         said, stack, f, m, pm, tries, pos, sm, todo, ra, 
                         limit, fcb, fails, num, prim, ta, tm >>

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == pc = "Done" /\ UNCHANGED vars

Next == Send \/ Select \/ Probe \/ Scan \/ ReadOut \/ ReadSlave \/ Call
           \/ Do \/ Drained \/ Return \/ Close
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(pc = "Done")

\* END TRANSLATION 

---------------------------------------------------------------------------
(* Where memory can be refused (hit), a call may end at any point with its *)
(* failure, and a program with a failing status and no document; nothing   *)
(* else changes: what was put on the line before was what the call puts on *)
(* the line, and what was read is gone.  A refusal may also be gone around *)
(* without anybody noticing: that is Next.                                 *)
Starve(hit) ==
  /\ hit /\ pc \notin {"Call", "Close", "Done"} /\ x.op \notin {"purge", "none"}
  /\ res' = CASE x.op \in {"select", "probe"} -> PROBEERROR [] x.op \in {"recv", "drecv"} -> ERROR [] OTHER -> -1
  /\ frm' = NoFrame /\ pc' = "Return" /\ stack' = <<>>
  /\ UNCHANGED << cs, obs, bus, wq, env, sp, x, sent, chain, addr, said, f, m, pm, tries, pos, sm, todo, ra, limit, fcb, fails, num, prim, ta, tm >>
GiveUp(hit) ==
  /\ hit /\ IsProgram(cs) /\ pc \notin {"Close", "Done"}
  /\ (sp.at = "exit" => sp.doc.ok)          \* (a success that was announced is not taken back, but a document may still be refused)
  /\ sp' = Exit(1) /\ pc' = "Close" /\ stack' = <<>>
  /\ UNCHANGED << cs, obs, bus, wq, env, x, sent, res, frm, chain, addr, said, f, m, pm, tries, pos, sm, todo, ra, limit, fcb, fails, num, prim, ta, tm >>
=============================================================================
