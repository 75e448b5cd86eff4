----------------------------- MODULE FactoryOps -----------------------------
(* The filter factory: names bound to creators.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Put(f, k, v) == (k :> v) @@ f
(* names whose plugin symbol the process has, or for which the plugin        *)
(* directory holds a loadable module                                         *)
InProcess == {"exedl"}
InDir == {"plug"}
Documented == {"auth_simple", "backend_test", "bounce", "cgi", "cql_rpn", "frontend_net",
  "http_client", "http_file", "http_rewrite", "limit", "load_balance", "log", "multi",
  "present_chunk", "query_rewrite", "record_transform", "sd_remove", "session_shared",
  "sort", "sru_z3950", "template", "virt_db", "z3950_client", "zeerex_explain", "zoom"}

FaStart == [map |-> <<>>, loaded |-> {}]
Dl(s, n, dir) == n \in InProcess \/ n \in s.loaded \/ (dir /\ n \in InDir)
FaAllowed(s, e) ==
  CASE e.op = "add"    -> e.res = (e.name \notin DOMAIN s.map)
    [] e.op = "drop"   -> e.res = (e.name \in DOMAIN s.map)
    [] e.op = "exist"  -> e.res = (e.name \in DOMAIN s.map)
    [] e.op = "create" -> e.made = IF e.name \in DOMAIN s.map THEN s.map[e.name] ELSE "NotFound"
    [] e.op = "dl"     -> e.res = (e.name \in DOMAIN s.map \/ Dl(s, e.name, e.dir))
    [] e.op = "static" -> (e.name \in Documented) => (e.exists /\ e.created)
    [] OTHER -> FALSE
FaApply(s, e) ==
  CASE e.op = "add"  -> IF e.name \in DOMAIN s.map THEN s ELSE [s EXCEPT !.map = Put(@, e.name, e.creator)]
    [] e.op = "drop" -> [s EXCEPT !.map = [x \in DOMAIN @ \ {e.name} |-> @[x]]]
    [] e.op = "dl"   -> IF e.name \in DOMAIN s.map THEN s
                        ELSE IF Dl(s, e.name, e.dir)
                             THEN [map |-> Put(s.map, e.name, "dl-" \o e.name),
                                   loaded |-> s.loaded \cup {e.name}]
                             ELSE s
    [] OTHER -> s
=============================================================================
