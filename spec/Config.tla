------------------------------- MODULE Config -------------------------------
(* What a component's configuration is, given the two files, and which are   *)
(* refused.  Numbers, durations (in ns) and sizes (in bytes) are decimal     *)
(* strings; lists are sequences.                                             *)
EXTENDS Text, Dec
Default ==
  [name |-> "", mode |-> "", nats_address |-> "nats://localhost:4222", nats_subject |-> <<"influx-spout">>, nats_subject_monitor |-> "influx-spout-monitor",
   nats_subject_junkyard |-> "influx-spout-junk", influxdb_address |-> "localhost", influxdb_protocol |-> "http", influxdb_port |-> "8086",
   influxdb_dbname |-> "influx-spout-junk", batch_max_count |-> "10", batch_max_size |-> "0", batch_max_age |-> "300000000000", port |-> "0", workers |-> "8",
   write_timeout |-> "30000000000", writer_retry_batches |-> "1", writer_retry_interval |-> "10000000000", writer_retry_timeout |-> "60000000000",
   read_buffer_size |-> "4194304", nats_max_pending_size |-> "209715200", rule |-> <<>>, max_time_delta |-> "600000000000", stats_interval |-> "3000000000",
   probe_port |-> "0", pprof_port |-> "0", debug |-> "false", downsample_period |-> "0", downsample_suffix |-> "-archive", queue_group |-> ""]
Options == DOMAIN Default
Given(common, own) == [o \in Options |-> IF o \in DOMAIN own THEN own[o] ELSE IF o \in DOMAIN common THEN common[o] ELSE Default[o]]
(* The base name without its extension.                                      *)
Base(file) == LET slash == LastIndexIn(file, {"/"}, Len(file))
                  b == IF slash = 0 THEN file ELSE From(file, slash + 1)
                  dot == LastIndexIn(b, {"."}, Len(b))
              IN IF dot = 0 THEN b ELSE UpTo(b, dot - 1)
Listening(m) == m \in {"listener", "listener_http"}
(* Nothing, or zero, stands for a default which depends on the mode.         *)
Effective(common, own, file) ==
  LET g == Given(common, own)
      m == g.mode IN
  [o \in Options |->
     CASE o = "name" -> IF g.name = "" THEN Base(file) ELSE g.name
       [] o = "batch_max_size" -> IF g.batch_max_size # "0" THEN g.batch_max_size ELSE IF Listening(m) THEN "1048576" ELSE "10485760"
       [] o = "port" -> IF g.port # "0" THEN g.port ELSE IF m = "listener" THEN "10001" ELSE IF m = "listener_http" THEN "13337" ELSE IF m = "monitor" THEN "9331" ELSE "0"
       [] o = "downsample_period" -> IF g.downsample_period = "0" /\ m = "downsampler" THEN "60000000000" ELSE g.downsample_period
       [] OTHER -> g[o]]

Between(lo, x, hi) == Le(lo, x) /\ Le(x, hi)
MatchOk(r) ==
  /\ r.type # ""
  /\ IF r.type = "tags" THEN r.match = "" /\ r.tags # <<>> /\ \A i \in 1..Len(r.tags) : Len(r.tags[i]) = 2
     ELSE r.match # "" /\ r.tags = <<>>
Valid(c, user, pass) ==
  /\ Between("0", c.probe_port, "65535") /\ Between("0", c.pprof_port, "65535")
  /\ c.mode # "downsampler" => c.downsample_period = "0"
  /\ CASE Listening(c.mode) -> Between("1", c.port, "65535") /\ Len(c.nats_subject) = 1 /\ Le(c.batch_max_size, "1048576")
       [] c.mode = "filter" -> Len(c.nats_subject) = 1 /\ \A i \in 1..Len(c.rule) : MatchOk(c.rule[i]) /\ c.rule[i].subject # ""
       [] c.mode = "downsampler" -> c.downsample_period # "0" /\ c.downsample_suffix # ""
       [] c.mode = "writer" -> /\ Len(c.nats_subject) >= 1 /\ Between("1", c.influxdb_port, "65535")
                               /\ c.influxdb_protocol \in {"http", "https"} /\ (user = "") = (pass = "")
                               /\ \A i \in 1..Len(c.rule) : MatchOk(c.rule[i]) /\ c.rule[i].subject = ""
       [] c.mode = "monitor" -> Between("1", c.port, "65535")
       [] OTHER -> FALSE
(* What is found out when the rules are put to use.                          *)
Usable(r) == r.type \in {"basic", "tags", "regex", "negregex"} /\ ~r.malformed
=============================================================================
