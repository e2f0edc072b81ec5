----------------------------- MODULE TraceBase64 -----------------------------
EXTENDS Base64, TLC, Json, IOUtils
VARIABLES sc, l, st, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

Judge64(s, ev) ==
  CASE ev.op = "enc" -> ev.text = Encode64(ev.bytes)
    [] ev.op = "dec" ->
         /\ ev.ok => Valid64(ev.text)
         /\ Canonical64(ev.text) => ev.ok
         \* Non-zero bits behind the last byte may or may not be accepted.
         /\ ev.ok => ev.out = ev.pre \o Decode64(ev.text)
    [] OTHER -> ~ev.ok /\ ev.text = <<>>

INSTANCE TraceDriver WITH Start <- 0, Judge <- Judge64, After <- LAMBDA s, ev : s
Spec == DriverSpec
=============================================================================
