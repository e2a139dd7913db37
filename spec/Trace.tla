------------------------------- MODULE Trace -------------------------------
(* Trace validation.  Each session recorded from the real library is a      *)
(* sequence of events, one per API call, with arguments and observed        *)
(* outcome.  The state machine below is the specified library: its state    *)
(* holds the objects a session works on (certificate builders, readers,     *)
(* writers), what the cryptographic oracles have established (facts), the   *)
(* memory of released secrets and the values already drawn at random.       *)
(* Every step must be explained by the specification (invariant Conforms).  *)
EXTENDS Why, Memory, Token, Ctap, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s,      \* session
          l,      \* events consumed
          facts,  \* positions of oracle events
          objs,   \* handle -> object
          seen,   \* random values drawn so far
          good    \* the last event was explained

vars == <<s, l, facts, objs, seen, good>>

Ev == Sessions[s].ev
Zone == IF "zone" \in DOMAIN Sessions[s] THEN Sessions[s].zone ELSE <<<<0, 0, 0>>>>

\* inputs are literal or edits of an earlier event's literal input
Mat(x) == IF "d" \in DOMAIN x THEN x.d ELSE Edits(Ev[x.b].in.d, x.e)

(* ---- oracles ---- *)
IsFact(alg, key, msg, sig) ==
  \E i \in facts : LET f == Ev[i] IN
     f.op = "fact" /\ f.alg = alg /\ f.sig = sig /\ f.key = key /\ Mat(f.msg) = msg
HashOf(a, x) ==
  LET m == {i \in facts : Ev[i].op = "hash" /\ Ev[i].a = a /\ Mat(Ev[i].i) = x} IN
  IF m = {} THEN <<>> ELSE <<Ev[CHOOSE i \in m : TRUE].o>>
Stream(pass, salt, rounds) ==
  LET m == {i \in facts : Ev[i].op = "kdf" /\ Ev[i].pass = pass /\ Ev[i].salt = salt /\ Ev[i].rounds = rounds} IN
  IF m = {} THEN <<>> ELSE <<Ev[CHOOSE i \in m : TRUE].ks>>
IsX509Fact(alg, key, tbs, sig) ==
  \E i \in facts : LET f == Ev[i] IN
     f.op = "x509" /\ f.alg = alg /\ f.sig = sig /\ f.key = key /\ f.tbs = tbs
FactOps == {"fact", "hash", "kdf", "x509", "note"}

(* ---- certificates ---- *)
OptsMatch(set, q) == Len(q) = Cardinality(set) /\ Pairs(q) = set
KeyMatch(key, o) == SameKeyOut(key, o)
FieldsMatch(c, o) ==
  /\ o.kt = c.kt /\ o.nonce = c.nonce /\ KeyMatch(c.key, o.key) /\ o.serial = c.serial /\ o.ct = c.ct
  /\ o.id = c.id /\ o.pr = c.pr /\ o.va = c.va /\ o.vb = c.vb
  /\ OptsMatch(c.cr, o.cr) /\ OptsMatch(c.ex, o.ex)
  /\ o.rs = c.rs /\ KeyMatch(c.ca, o.ca) /\ o.sig = c.sig

CertBytesOk(e) ==
  LET b == Mat(e.in)  r == ImportCert(b, IsFact, HashOf) IN
  IF r.ok THEN e.st = "ok" /\ FieldsMatch(r.c, e.out) /\ Mat(e.out.ser) = b /\ e.out.cm = <<>>
                           /\ e.out.key.cm = <<>> /\ e.out.ca.cm = <<>>
  ELSE e.st = "err"
CertTextOk(e) ==
  LET r == ImportCertText(Mat(e.in), IsFact, HashOf) IN
  IF r.ok THEN /\ e.st = "ok" /\ FieldsMatch(r.c, e.out) /\ Mat(e.out.ser) = r.b /\ e.out.cm = r.cm
               /\ e.out.key.cm = <<>> /\ e.out.ca.cm = <<>>
               /\ ("same" \in DOMAIN e => r.c = objs[e.same].c)
  ELSE e.st = "err" /\ "same" \notin DOMAIN e

CertOf(o) == [kt |-> o.kt, nonce |-> o.nonce, key |-> PubOf(o.key), serial |-> o.serial, ct |-> o.ct, id |-> o.id,
              pr |-> o.pr, va |-> o.va, vb |-> o.vb, cr |-> Pairs(o.cr), ex |-> Pairs(o.ex), rs |-> o.rs,
              ca |-> PubOf(o.ca), sig |-> o.sig]
ObjMatch(b, o) == FieldsMatch(b.c, o) /\ Mat(o.ser) = b.ser /\ o.cm = b.cm
SigFits(b, sig) == Fits(b, sig, IsFact, HashOf)
NewObj(e) == BObj(NewCert(PubOf(e.key), e.ct, PubOf(e.ca), e.out.nonce, e.out.serial), <<>>, <<>>)
BuilderObj(e) ==   \* the object after the event
  CASE e.op = "b_new" -> NewObj(e)
    [] e.op = "b_load" -> BObj(CertOf(Ev[e.from].out), Mat(Ev[e.from].out.ser), Ev[e.from].out.cm)
    [] e.op = "b_clone" -> objs[e.of]
    [] e.op = "b_set" -> SetField(objs[e.h], e.f, e.v)
    [] e.op \in {"b_addsig", "b_sign"} /\ e.st = "ok" -> Attached(objs[e.h], e.out.sig)
    [] OTHER -> objs[e.h]
BuilderOk(e) ==
  LET b == BuilderObj(e) IN
  CASE e.op = "b_new" -> e.st = "ok" /\ Len(e.out.nonce) = 32 /\ ObjMatch(b, e.out) /\ e.out.key.cm = e.key.cm
    [] e.op \in {"b_load", "b_clone", "b_set", "b_get"} -> ObjMatch(b, e.out)
    [] e.op = "b_tbs" -> e.out = EncodeTbs(b.c)
    [] e.op = "b_addsig" -> IF SigFits(objs[e.h], e.sig) THEN e.st = "ok" /\ e.out.sig = e.sig /\ ObjMatch(b, e.out)
                            ELSE e.st = "err"
    \* a signer: was given got, returned ret (<<>> when it failed)
    [] e.op = "b_sign" -> IF "ret" \in DOMAIN e
                          THEN /\ e.got = EncodeTbs(objs[e.h].c)
                               /\ IF e.ret # <<>> /\ SigFits(objs[e.h], e.ret[1])
                                  THEN e.st = "ok" /\ e.out.sig = e.ret[1] /\ ObjMatch(b, e.out)
                                  ELSE e.st = "err"
                          \* signing with a private key: must succeed exactly when use says so
                          ELSE IF e.st = "ok" THEN e.use # "no" /\ SigFits(objs[e.h], e.out.sig) /\ ObjMatch(b, e.out)
                               ELSE e.st = "err" /\ e.use # "yes"
    [] e.op = "b_text" -> e.out = Utf8Enc(A(b.c.kt) \o <<32>> \o B64(b.ser) \o <<32>>) \o b.c.id
    [] e.op = "b_pretty" ->
         LET fk == HashOf("sha256", EncodePub(b.c.key))  fc == HashOf("sha256", EncodePub(b.c.ca)) IN
         fk # <<>> /\ fc # <<>> /\ PrettyOk(b.c, fk[1], fc[1], e.out)
StdExt == {<<A(n), <<>>>> : n \in {"permit-agent-forwarding", "permit-port-forwarding", "permit-pty", "permit-user-rc",
                                    "permit-X11-forwarding"}}
StdExtOk(e) == OptsMatch(StdExt, e.out)
BuilderOps == {"b_new", "b_load", "b_clone", "b_set", "b_get", "b_tbs", "b_addsig", "b_sign", "b_text", "b_pretty"}

(* ---- detached signatures ---- *)
SigOut(x, o) == KeyMatch(x.key, o.key) /\ o.ns = x.ns /\ o.ha = x.ha /\ o.sig = x.sig
SigParseOk(e) ==
  LET x == ParseArmoredSig(Mat(e.in)) IN
  IF x.ok THEN e.st = "ok" /\ SigOut(x, e.out) /\ e.out.key.cm = <<>> ELSE e.st = "err"
Expected(q) == IF q = <<>> THEN <<>> ELSE <<PubOf(q[1])>>
SigVerifyOk(e) ==
  LET x == ParseArmoredSig(Mat(e.in)) IN
  IF x.ok /\ SigVerifies(x, Mat(e.msg), e.ns, Expected(e.pk), IsFact, HashOf)
  THEN e.st = "ok" /\ SigOut(x, e.out) /\ Mat(e.out.msg) = Mat(e.msg)
  ELSE e.st = "err"
\* created with a private key whose public half is e.key
SigNewOk(e) ==
  IF e.st = "ok"
  THEN LET x == ParseArmoredSig(e.text)
           ha == IF e.ha = <<>> THEN "sha512" ELSE e.ha[1]
       IN /\ e.use # "no" /\ e.ns # <<>>
          /\ x.ok /\ x.key = PubOf(e.key) /\ x.ns = e.ns /\ x.ha = ha
          /\ SigOut(x, e.out) /\ Mat(e.out.msg) = Mat(e.msg)
          /\ SigVerifies(x, Mat(e.msg), e.ns, <<PubOf(e.key)>>, IsFact, HashOf)
          /\ e.text = ArmoredSig(x)
  ELSE e.st = "err" /\ (e.use # "yes" \/ e.ns = <<>>)

(* ---- public keys ---- *)
PubLineOk(e) ==
  LET r == ParsePubLine(Mat(e.in)) IN
  IF r.ok THEN e.st = "ok" /\ KeyMatch(r.key, e.out) /\ e.out.cm = r.cm ELSE e.st = "err"
PubBlobOk(e) ==
  LET r == ParsePub(Mat(e.in)) IN
  IF r.ok THEN e.st = "ok" /\ KeyMatch(r.key, e.out) /\ e.out.cm = <<>> ELSE e.st = "err"
\* views of the key e.key
HashName(a) == CASE a = "sha256" -> A("SHA256") [] a = "sha384" -> A("SHA384") [] OTHER -> A("SHA512")
PubViewOk(e) ==
  LET k == PubOf(e.key) IN
  CASE e.op = "pub_enc" -> e.out = EncodePub(k)
    [] e.op = "pub_bits" -> e.out = PubBits(k)
    [] e.op = "pub_disp" -> e.out = PubLine(k, e.key.cm)
    [] e.op = "pub_write" -> e.out = PubLine(k, e.key.cm) \o <<10>>
    [] e.op = "pub_fp" -> LET h == HashOf(e.a, EncodePub(k)) IN
                          h # <<>> /\ e.kind = HashName(e.a) /\ e.out = FpText(h[1])
                          /\ e.disp = e.kind \o <<58>> \o e.out
PubViews == {"pub_enc", "pub_bits", "pub_disp", "pub_write", "pub_fp"}

(* ---- private keys ---- *)
PrivOut(k, o) == /\ o.kt = k.kt /\ KeyMatch(k.pub, o.pub) /\ o.pub.cm = <<>> /\ o.sec = k.sec
                 /\ o.magic = k.magic /\ o.cm = k.cm /\ o.kind = (IF KtNamed(k.kt).sk THEN KtNamed(k.kt).fam \o "sk" ELSE KtNamed(k.kt).fam)
PrivParseOk(e) ==
  LET r == OpenPrivText(Mat(e.in), e.pass, Stream) IN
  IF r.st = "ok" THEN e.st = "ok" /\ PrivOut(r.key, e.out) ELSE e.st = r.st
PrivOfOut(o) == [kt |-> o.kt, pub |-> PubOf(o.pub), sec |-> o.sec, magic |-> o.magic, cm |-> o.cm]
PrivViewOk(e) ==
  LET k == PrivOfOut(e.key) IN
  CASE e.op = "priv_enc" -> e.out = EncodePriv(k)
    [] e.op = "priv_write" -> e.out = PrivFile(k)
    [] e.op = "priv_disp" -> LET h == HashOf("sha256", EncodePub(k.pub)) IN
                             h # <<>> /\ e.out = A("SHA256:") \o FpText(h[1]) \o <<32>> \o k.cm
    \* a generated key: standard shape; the secret starts with the seed
    [] e.op = "priv_new" -> /\ k.kt = "ssh-ed25519" /\ k.pub.kt = "ssh-ed25519"
                            /\ k.cm = e.cm /\ Len(k.sec) = 1 /\ Len(k.sec[1]) = 64
                            /\ Len(k.pub.p[1]) = 32
                            /\ SubSeq(k.sec[1], 33, 64) = k.pub.p[1]
                            /\ e.pair = k.pub.p[1]   \* oracle: public key of the seed
PrivViews == {"priv_enc", "priv_write", "priv_disp", "priv_new"}
\* the private section alone (no file says so, but the name of a certificate
\* type there may or may not be taken for its plain type)
PrivBytesOk(e) ==
  LET r == ParsePrivData(Mat(e.in), 0)  t == RdString(Mat(e.in), 0) IN
  IF t.st = "ok" /\ Kt(t.v).cert THEN e.st \in {"ok", "err"}
  ELSE IF r.ok THEN e.st = "ok" /\ PrivOut(r.key @@ [magic |-> <<0, 0, 0, 0>>], e.out) ELSE e.st = "err"
\* signing: scheme name and validity
SchemeFor(kt) == IF KtNamed(kt).fam = "rsa" THEN A("rsa-sha2-512") ELSE A(kt)
PrivSignOk(e) ==
  IF e.st = "ok" THEN /\ e.use # "no"
                      /\ RdString(e.out, 0).st = "ok" /\ RdString(e.out, 0).v = SchemeFor(e.key.kt)
                      /\ VerifySig(PubOf(e.key), e.out, Mat(e.msg), IsFact, HashOf)
  ELSE e.st = "err" /\ e.use # "yes"

(* ---- allowed signers ---- *)
AsLineOk(e) == SignerLineConforms(Mat(e.in), Zone, e.st, IF e.st = "ok" THEN e.out ELSE <<>>)
AsFileOk(e) == SignerFileConforms(Mat(e.in), Zone, e.st, IF e.st = "err" THEN e.line ELSE 0, IF e.st = "ok" THEN e.out ELSE <<>>)
AsDispOk(e) == PrintedConforms(e.text, e.key)

(* ---- reader and writer objects ---- *)
RObj(b, o) == [b |-> b, o |-> o]
ReaderOk(e) ==
  CASE e.op = "r_new" -> e.o = 0
    [] e.op = "r_set" -> e.o = e.to
    [] e.op = "r_read" ->
         LET x == objs[e.h]  r == RdOf(e.k, e.n, x.b, x.o) IN
         IF r.st = "ok" THEN e.st = "ok" /\ e.v = r.v /\ e.o = r.o
         ELSE e.st = "err" /\ e.o \in {x.o, r.o}
ReaderObj(e) == CASE e.op = "r_new" -> RObj(Mat(e.in), 0) [] OTHER -> [objs[e.h] EXCEPT !.o = e.o]
ReaderOps == {"r_new", "r_set", "r_read"}
\* after every write the whole content is compared
WriterObj(e) == IF e.op = "w_new" THEN <<>> ELSE objs[e.h] \o WrOf(e.k, e.v)
WriterOk(e) == e.out = WriterObj(e)
WriterOps == {"w_new", "w_write"}

(* ---- key type registry ---- *)
KtOk(e) ==
  LET k == Kt(e.in.d) IN
  IF k = NoKt THEN e.st = "err"
  ELSE /\ e.st = "ok"
       /\ LET o == e.out IN
          /\ o.name = k.name /\ o.plain = k.plain /\ o.short = k.short /\ o.cert = k.cert /\ o.sk = k.sk
          /\ o.kind = k.kind /\ o.certname = CertKtOf(k).name /\ o.pubname = k.plain /\ o.disp = k.name
CurveOk(e) ==
  IF e.in.d \in CurveBytes THEN e.st = "ok" /\ A(e.out.id) = e.in.d /\ A(e.out.kind) = e.in.d ELSE e.st = "err"
RoleOk(e) ==   \* user / host text
  CASE e.in.d \in {A("user"), A("User")} -> e.st = "ok" /\ e.out = 1 /\ e.disp = A("user certificate")
    [] e.in.d \in {A("host"), A("Host")} -> e.st = "ok" /\ e.out = 2 /\ e.disp = A("host certificate")
    [] OTHER -> e.st = "err"

(* ---- FIDO, PIV, X.509 ---- *)
AuthOk(e) ==
  LET a == ParseAuth(Mat(e.in)) IN
  IF a.ok THEN /\ e.st = "ok" /\ AuthMatches(a, e.out)
               /\ LET k == AuthKey(a, e.app) IN
                  IF k.ok THEN e.kst = "ok" /\ KeyMatch(k.key, e.kout) /\ e.kout.cm = <<>> ELSE e.kst = "err"
  ELSE e.st = "err"
FidoOk(e) ==
  LET r == FidoVerify(Mat(e.ad), e.sig, e.ch, e.alg, Mat(e.inter), e.root, IsX509Fact, IsFact) IN
  IF r.ok THEN /\ e.st = "ok" /\ AuthMatches(r.auth, e.out.auth) /\ e.out.fw = r.fw
               /\ e.out.aaguid = r.aaguid /\ e.out.tr = r.tr
  ELSE e.st = "err"
PivOk(e) ==
  LET r == PivVerify(Mat(e.leaf), Mat(e.inter), e.root, IsX509Fact) IN
  IF r.ok THEN /\ e.st = "ok" /\ KeyMatch(r.key, e.out.key) /\ e.out.key.cm = <<>> /\ e.out.fw = r.fw
               /\ e.out.sn = r.sn /\ e.out.pin = r.pin /\ e.out.touch = r.touch
  ELSE e.st = "err"
\* want: "yes" well formed by construction, "no" to be rejected by
\* construction, "any" damaged data: if something is returned it must be what
\* the data says
X509KeyOf(e) == CASE e.op = "x_cert" -> LET x == X509(Mat(e.in)) IN IF x.ok THEN SpkiKey(x.spki) ELSE [ok |-> FALSE]
                  [] e.op = "x_csr" -> SpkiKey(CsrSpki(Mat(e.in)))
                  [] OTHER -> DerPub(Mat(e.in))
XKeyOk(e) ==
  LET k == X509KeyOf(e) IN
  CASE e.st = "ok" -> e.want # "no" /\ (k.ok \/ e.want = "any") /\ (k.ok => KeyMatch(k.key, e.out) /\ e.out.cm = <<>>)
    [] e.st = "err" -> e.want # "yes"
    [] OTHER -> FALSE
XOps == {"x_cert", "x_csr", "x_der"}

(* ---- DER signatures ---- *)
DerRsOk(e) ==
  LET d == DerRs(Mat(e.in)) IN
  IF d.ok THEN \/ e.st = "ok" /\ e.r = d.r /\ e.s = d.s /\ e.ssh = RsSsh(d)
               \/ d.open /\ e.st = "err"
  ELSE e.st = "err"
FmtSigOk(e) ==
  LET f == FormatSig(PubOf(e.key), Mat(e.in)) IN
  IF f # <<>> THEN (e.st = "ok" /\ e.out = f[1]) \/ (e.st = "err" /\ KtNamed(e.key.kt).fam = "ecdsa" /\ DerRs(Mat(e.in)).open)
  ELSE e.st = "err"

(* ---- private keys in memory: clones share nothing, a dropped key leaves  *)
(*      nothing behind                                                      *)
MemOps == {"hold", "copy", "pin", "look", "gone"}
MemOk(e) ==
  CASE e.op = "hold" -> e.h \notin DOMAIN objs
    [] e.op = "copy" -> e.h \notin DOMAIN objs /\ e.sec = objs[e.of].sec
    [] e.op = "pin"  -> LET x == objs[e.h] IN
                        /\ e.sec = WithPin(x.sec, x.hw, e.val)
                        \* the PIN that was there is not released as it was
                        /\ x.hw => \A k \in 1..Len(e.rel) : Wiped(x.sec[Len(x.sec)], e.rel[k])
    [] e.op = "look" -> e.sec = objs[e.h].sec
    [] e.op = "gone" -> objs[e.h].live /\ DropOk(objs[e.h].sec, e.rel)
MemObj(e) ==
  CASE e.op = "hold" -> [hw |-> e.hw, sec |-> e.sec, live |-> TRUE]
    [] e.op = "copy" -> objs[e.of]
    [] e.op = "pin"  -> [objs[e.h] EXCEPT !.sec = WithPin(@, objs[e.h].hw, e.val)]
    [] e.op = "look" -> objs[e.h]
    [] e.op = "gone" -> [objs[e.h] EXCEPT !.live = FALSE, !.sec = <<>>]

(* ---- PIV tokens: the world is object 0 ---- *)
TkOps == {"tk_world", "tk_env", "tk_drop", "tk"}
Table(q) == [k \in {q[i][1] : i \in 1..Len(q)} |-> (LET i == CHOOSE j \in 1..Len(q) : q[j][1] = k IN q[i][2])]
CardOf(o) == [serial |-> o.serial, pin |-> o.pin, tries |-> o.tries, mgm |-> o.mgm, verified |-> FALSE, fresh |-> FALSE,
              authed |-> FALSE, touch |-> o.touch, keep |-> o.keep, plugged |-> o.plugged, other |-> FALSE,
              keys |-> Table(o.keys), certs |-> Table(o.certs)]
\* what a certificate or a request says of its subject
NamedCert(b) ==
  LET x == X509(b) IN
  IF ~x.ok THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, key |-> SpkiKey(x.spki), cn |-> CertCn(b), tbs |-> x.tbs, sig |-> x.sig]
KeyOfCert(b) == LET x == NamedCert(b) IN IF x.ok THEN x.key ELSE [ok |-> FALSE]
NamedCsr(b) ==
  LET p == CsrSpki(b) IN
  IF ~p.ok THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, key |-> SpkiKey(p), cn |-> CsrCn(b), tbs |-> CsrTbs(b), sig |-> CsrSig(b)]
SshSigOf(key, sig) == FormatSig(key, sig)
NoCm(key, o) == KeyMatch(key, o) /\ o.cm = <<>>
MgmIn(e) == IF "mgm" \in DOMAIN e THEN e.mgm ELSE <<>>
TkWalk(e) == Walk(objs[0].cards, e.cmds, MgmIn(e))
TkOk(e) ==
  LET w == objs[0]
      eff == Effects(e.cmds)
      i == w.hs[e.k].card
      c == w.cards[i]
  IN /\ TkWalk(e).ok
     /\ CASE e.call \in {"open", "new"} -> OpenOk(e, w, eff)
          [] e.call = "reconnect" -> ReconnectOk(e, w, i, w.hs[e.k].pin, eff)
          [] e.call = "unlock" -> UnlockOk(e, i, eff)
          [] e.call = "provision" -> ProvisionOk(e, i, eff, NamedCert, HashOf, NoCm)
          [] e.call = "sign_data" -> SignDataOk(e, c, i, eff, KeyOfCert, HashOf)
          [] e.call = "signer" -> SignerOk(e, c, i, eff, KeyOfCert, HashOf, SshSigOf)
          [] e.call = "csr" -> CsrOk(e, c, i, eff, KeyOfCert, NamedCsr, HashOf)
          [] e.call = "attest" -> AttestOk(e, i, eff)
          [] e.call = "write" -> WriteOk(e, i, eff, e.der, NamedCert)
          [] e.call = "subject" -> /\ eff = <<>>
                                   /\ IF e.st = "ok" THEN /\ e.slot \in DOMAIN c.certs
                                                          /\ LET n == CertCn(c.certs[e.slot]) IN n # <<>> => e.out = A("CN=") \o n[1]
                                      ELSE e.st = "err" /\ (InSlot(c, e.slot, KeyOfCert).ok => Faulty(e.cmds))
          [] OTHER -> ReadOk(e, c, eff, KeyOfCert, NoCm, LAMBDA x : x)
TkExplained(e) ==
  CASE e.op = "tk_world" -> TRUE
    [] e.op = "tk_env" -> TRUE
    [] e.op = "tk_drop" -> Effects(e.cmds) = <<>> /\ TkWalk(e).ok
    [] OTHER -> TkOk(e)
\* the PIN a connection has seen accepted
PinSeen(e) == IF e.call = "unlock" /\ e.pin # <<>> /\ \E j \in 1..Len(e.cmds) : e.cmds[j].k = "verify" /\ e.cmds[j].ok
              THEN <<e.pin>> ELSE objs[0].hs[e.k].pin
TkObj(e) ==
  CASE e.op = "tk_world" -> [cards |-> [i \in 1..Len(e.cards) |-> CardOf(e.cards[i])], hs |-> <<>>]
    [] e.op = "tk_env" ->
         [objs[0] EXCEPT !.cards[e.card] = CASE e.a = "plug" -> [@ EXCEPT !.plugged = TRUE]
                                              [] e.a = "unplug" -> [Cleared(@) EXCEPT !.plugged = FALSE]
                                              [] e.a = "touch" -> [@ EXCEPT !.touch = (e.v = <<1>>)]
                                              [] e.a = "pin" -> [@ EXCEPT !.pin = e.v]]
    [] e.op = "tk_drop" -> [objs[0] EXCEPT !.cards = TkWalk(e).cards]
    [] OTHER -> LET w == [objs[0] EXCEPT !.cards = TkWalk(e).cards] IN
                IF e.call \in {"open", "new"}
                THEN IF e.st = "ok" /\ \E i \in 1..Len(w.cards) : w.cards[i].serial = e.out
                     THEN [w EXCEPT !.hs = Set(@, e.k, [card |-> CHOOSE i \in 1..Len(w.cards) : w.cards[i].serial = e.out, pin |-> <<>>])]
                     ELSE w
                ELSE [w EXCEPT !.hs[e.k].pin = PinSeen(e)]

(* ---- FIDO tokens: the world is object 0 ---- *)
HdOps == {"hd_world", "hd_env", "hd_gen", "hd_sign", "hd_issue"}
HdOk(e) ==
  LET toks == objs[0].toks
      Att(x, app) ==
        LET inter == IF x.x5c = <<>> THEN <<>> ELSE Mat(x.x5c[1])
            v == IF x.fmt = "packed" THEN FidoVerify(x.ad, x.sig, x.cdh, x.alg, inter, e.root, IsX509Fact, IsFact) ELSE [ok |-> FALSE]
        IN IF ~v.ok THEN [ok |-> FALSE]
           ELSE LET k == AuthKey(v.auth, app) IN
                IF ~k.ok THEN [ok |-> FALSE]
                ELSE [ok |-> TRUE, key |-> k.key, flags |-> v.auth.flags, cred |-> v.auth.cred]
  IN CASE e.op \in {"hd_world", "hd_env"} -> TRUE
       [] e.op = "hd_gen" -> /\ TokWalk(toks, e.cmds).ok /\ (e.gone # <<>> => e.hit)
                             /\ MakeOk(e, toks, HashOf, Att, NoCm, Mat)
       [] OTHER -> LET key == PubOf(e.key)
                       msg == Mat(e.data)
                       x == [f \in DOMAIN e \cup {"msg"} |-> IF f = "msg" THEN msg ELSE e[f]]
                   IN /\ TokWalk(toks, e.cmds).ok /\ (e.gone # <<>> => e.hit)
                      /\ SignOk(x, key, toks, HashOf, SshSigOf, LAMBDA r : e.op = "hd_sign" \/ VerifySig(key, r[1], msg, IsFact, HashOf))
HdObj(e) ==
  CASE e.op = "hd_world" -> [toks |-> e.toks]
    [] e.op = "hd_env" -> [objs[0] EXCEPT !.toks[e.i] = e.t]
    [] OTHER -> [objs[0] EXCEPT !.toks = TokGone(TokWalk(@, e.cmds).toks, e.gone)]

(* ---- freshness: no value is ever drawn twice, none repeats itself, and   *)
(*      over the draws of a session no part of it stays the same            *)
FreshOk(e) == e.v \notin seen /\ ~SelfRepeats(e.v[2])
SpreadOk(e) ==
  LET bs == {v[2] : v \in {u \in seen : u[1] = e.kind}} IN
  Cardinality(bs) >= e.n /\ Spread(bs, e.len, e.min) /\ Untied(bs, e.len)
\* two draws made together have nothing in common
ApartOk(e) == ~Occurs(e.a, e.b) /\ ~Occurs(Reversed(e.a), e.b)
\* short values may meet once by chance
ApartsOk(e) == Cardinality({i \in 1..Len(e.m) : Occurs(e.m[i][1], e.m[i][2]) \/ Occurs(Reversed(e.m[i][1]), e.m[i][2])}) <= 1
StillOk(e) == e.a = e.b

(* ---- answers do not depend on what happened before ---- *)
AnsOk(e) == SameAnswer(seen, e.c, e.v)

(* ---- total functions on arbitrary input: an answer, not a crash ---- *)
AnyOk(e) == e.st \in {"ok", "err"} /\ e.ms <= e.maxms

(* ---- refusals tell why ---- *)
Causes(e) ==
  CASE e.op = "cert_bytes" -> CertWhy(Mat(e.in), IsFact, HashOf)
    [] e.op = "cert_text" -> CertTextWhy(Mat(e.in), IsFact, HashOf)
    [] e.op = "pub_line" -> PubLineWhy(Mat(e.in))
    [] e.op = "pub_blob" -> PubWhy(Mat(e.in))
    [] e.op = "sig_parse" -> SigParseWhy(Mat(e.in))
    [] e.op = "sig_verify" -> SigVerifyWhy(Mat(e.in))
    [] e.op = "priv_parse" -> PrivTextWhy(Mat(e.in), e.pass, Stream)
    [] e.op = "priv_bytes" -> PrivDataWhy(Mat(e.in), 0)
    [] e.op = "kt" -> NoType(e.in.d)
    [] e.op = "curve" -> NoCurve(e.in.d)
    [] e.op = "b_addsig" -> SigWhy(objs[e.h].c.ca, e.sig)
    [] e.op = "b_sign" -> IF "ret" \in DOMAIN e
                          THEN IF e.ret = <<>> THEN {Cause("SigningError")} ELSE SigWhy(objs[e.h].c.ca, e.ret[1])
                          ELSE {Cause("SigningError")} \cup BadSig \cup Mismatch \cup CutShort
    [] e.op = "sig_new" -> (IF e.ns = <<>> THEN Malformed ELSE {}) \cup (IF e.use = "yes" THEN {} ELSE {Cause("SigningError")} \cup BadSig)
    [] e.op = "missing" -> {Cause("Io")}
    [] e.op = "gen" -> (CASE e.kind \in {"Rsa", "Ecdsa"} -> Unsup [] e.kind = "Ed25519" -> {} [] OTHER -> Mismatch)
    [] OTHER -> {}
FileLine(e) == LET es == EntryLines(Mat(e.in)) IN CHOOSE x \in {es[i] : i \in 1..Len(es)} : x[1] = e.line
WhyOk(e) ==
  LET c == <<e.why.k, e.why.a>> IN
  /\ CASE e.op = "as_line" -> LineWhyOk(Mat(e.in), Zone, c)
       [] e.op = "as_file" -> \/ \E x \in ToSet(EntryLines(Mat(e.in))) : ParseSignerLine(x[2]).odd
                              \/ LineWhyOk(FileLine(e)[2], Zone, c) /\ Shows(e.why.m, DecNat(e.line))
       [] OTHER -> c \in Causes(e)
  /\ e.why.m # <<>> /\ Shows(e.why.m, e.why.a)
\* the messages of different errors are told apart and show what they carry
ErrorsOk(e) ==
  /\ e.st = "ok"
  /\ \A i \in DOMAIN e.out : /\ e.out[i].m # <<>>
                             /\ \A j \in DOMAIN e.out[i].a : Shows(e.out[i].m, e.out[i].a[j])
                             /\ \A k \in 1..(i - 1) : e.out[k].m # e.out[i].m
RefusedOnly == {"missing", "gen"}   \* nothing but the refusal is recorded

Explained(e) ==
  ("why" \in DOMAIN e => WhyOk(e)) /\
  CASE e.op \in RefusedOnly -> e.st = (IF e.op = "gen" /\ e.kind = "Ed25519" THEN "ok" ELSE "err")
    [] e.op = "errors" -> ErrorsOk(e)
    [] e.op = "cert_bytes" -> CertBytesOk(e)
    [] e.op = "cert_text" -> CertTextOk(e)
    [] e.op \in BuilderOps -> BuilderOk(e)
    [] e.op = "std_ext" -> StdExtOk(e)
    [] e.op = "sig_parse" -> SigParseOk(e)
    [] e.op = "sig_verify" -> SigVerifyOk(e)
    [] e.op = "sig_new" -> SigNewOk(e)
    [] e.op = "pub_line" -> PubLineOk(e)
    [] e.op = "pub_blob" -> PubBlobOk(e)
    [] e.op \in PubViews -> PubViewOk(e)
    [] e.op = "priv_parse" -> PrivParseOk(e)
    [] e.op = "priv_bytes" -> PrivBytesOk(e)
    [] e.op \in PrivViews -> PrivViewOk(e)
    [] e.op = "priv_sign" -> PrivSignOk(e)
    [] e.op = "as_line" -> AsLineOk(e)
    [] e.op = "as_file" -> AsFileOk(e)
    [] e.op = "as_disp" -> AsDispOk(e)
    [] e.op \in ReaderOps -> ReaderOk(e)
    [] e.op \in WriterOps -> WriterOk(e)
    [] e.op = "kt" -> KtOk(e)
    [] e.op = "curve" -> CurveOk(e)
    [] e.op = "role" -> RoleOk(e)
    [] e.op = "auth" -> AuthOk(e)
    [] e.op = "fido" -> FidoOk(e)
    [] e.op = "piv" -> PivOk(e)
    [] e.op \in XOps -> XKeyOk(e)
    [] e.op = "der_rs" -> DerRsOk(e)
    [] e.op = "fmt_sig" -> FmtSigOk(e)
    [] e.op \in MemOps -> MemOk(e)
    [] e.op \in TkOps -> TkExplained(e)
    [] e.op \in HdOps -> HdOk(e)
    [] e.op = "fresh" -> FreshOk(e)
    [] e.op = "draw" -> TRUE
    [] e.op = "spread" -> SpreadOk(e)
    [] e.op = "apart" -> ApartOk(e)
    [] e.op = "aparts" -> ApartsOk(e)
    [] e.op = "still" -> StillOk(e)
    [] e.op = "ans" -> AnsOk(e)
    [] e.op = "any" -> AnyOk(e)
    [] OTHER -> FALSE

Put(h, x) == [k \in DOMAIN objs \cup {h} |-> IF k = h THEN x ELSE objs[k]]

Init == s \in 1..Len(Sessions) /\ l = 0 /\ facts = {} /\ objs = <<>> /\ seen = {} /\ good = TRUE

Oracle(e)  == e.op \in FactOps /\ facts' = facts \cup {l + 1} /\ good' = TRUE /\ UNCHANGED <<objs, seen>>
Builder(e) == e.op \in BuilderOps /\ good' = Explained(e) /\ objs' = Put(e.h, BuilderObj(e)) /\ UNCHANGED <<facts, seen>>
Reading(e) == e.op \in ReaderOps /\ good' = Explained(e) /\ objs' = Put(e.h, ReaderObj(e)) /\ UNCHANGED <<facts, seen>>
Writing(e) == e.op \in WriterOps /\ good' = Explained(e) /\ objs' = Put(e.h, WriterObj(e)) /\ UNCHANGED <<facts, seen>>
Keeping(e) == e.op \in MemOps /\ good' = Explained(e) /\ objs' = Put(e.h, MemObj(e)) /\ UNCHANGED <<facts, seen>>
Desk(e)  == /\ e.op \in TkOps \cup HdOps /\ good' = Explained(e)
            /\ objs' = Put(0, IF e.op \in TkOps THEN TkObj(e) ELSE HdObj(e)) /\ UNCHANGED <<facts, seen>>
Drawing(e) == e.op \in {"fresh", "draw"} /\ good' = Explained(e) /\ seen' = seen \cup {e.v} /\ UNCHANGED <<facts, objs>>
Answer(e)  == e.op = "ans" /\ good' = Explained(e) /\ seen' = seen \cup {<<e.c, e.v>>} /\ UNCHANGED <<facts, objs>>
Call(e)    == /\ e.op \notin FactOps \cup BuilderOps \cup ReaderOps \cup WriterOps \cup MemOps \cup TkOps \cup HdOps \cup {"fresh", "draw", "ans"}
              /\ good' = Explained(e) /\ UNCHANGED <<facts, objs, seen>>
Next == /\ l < Len(Ev)
        /\ good
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Ev[l + 1] IN Oracle(e) \/ Builder(e) \/ Reading(e) \/ Writing(e) \/ Keeping(e) \/ Desk(e) \/ Drawing(e) \/ Answer(e) \/ Call(e)
Spec == Init /\ [][Next]_vars

Conforms == good
=============================================================================
