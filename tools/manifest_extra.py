
CHECKS["C15"] = ("TLA+ specification of merging and validation (TLC), specification-enumerated and random file sets loaded by the real code, results judged by TLC",
                 "Config.tla computes the effective configuration of every file set written to disk and compares it with what dsari-info config dump "
                 "reports; merge laws are checked on all small documents; assumes the YAML/JSON parsers and the table of valid schedules/commands.")
NA.pop("C15")
CHECKS["C16"] = ("TLA+ specification of hashed schedules (TLC), specification laws model checked, next runs reported by the real code judged by TLC",
                 "Schedule.tla gives the meaning of H, H/n, H(a-b), H(a-b)/n and the @-words from crc32 of the name; next runs printed by dsari-info at random "
                 "instants must be the first matching time, and the seconds between; assumes crc32 is computed by zlib (given to the specification as a number).")
NA.pop("C16")
CHECKS["C17"] = ("TLA+ specification of schedules, calendars and time zones (TLC), brute-force check of the search in the model, next runs of dsari-info and of the daemon "
                 "in simulated local zones judged by TLC",
                 "Schedule.tla computes the first matching instant of cron and RRULE schedules over the offset table of the zone; next runs of dsari-info and chains of "
                 "scheduled runs of the daemon around changes of DST are checked; leniency at gaps and folds is stated in the specification.")
NA.pop("C17")
CHECKS["C19"] = ("TLA+ specification of the report tree (TLC), model of incremental rendering with kills checked, pages written by the real dsari-render (killed at random points) parsed "
                 "and judged by TLC",
                 "Render.tla says what every page must show for the store, outputs and settings; histories of runs, renders killed at a file operation or in the middle of a write, "
                 "changes of settings; assumes Python's HTML parser reads pages as browsers do.")
NA.pop("C19")
CHECKS["C20"] = ("TLA+ specification of the views of the store (TLC), output of the real dsari-info with the daemon's commits interleaved at every statement judged by TLC",
                 "Views.tla says which listings are consistent with the states of the store between begin and end of a command; all formats, filters and back ends (drivers replaced "
                 "by emulations); next runs by Schedule.tla.")
NA.pop("C20")
CHECKS["C21"] = ("TLA+ specification of the metrics (TLC), scrapes of the real exporter with the daemon's commits interleaved at every statement judged by TLC",
                 "Views.tla computes counts, sums, quantiles and last-run values from each state of the store in the cache window; scrapes, cache, reload, all back ends (emulated drivers).")
NA.pop("C21")
CHECKS["C22"] = ("TLA+ specification of the run store (TLC), model of a failing writer and a reader checked, operation sequences on the four real back ends judged by TLC",
                 "Store.tla is the abstract store; random histories with failures at every driver call, reopening and two connections; PostgreSQL, MySQL and MongoDB through emulations of "
                 "their drivers, which enforce column types, transactions and parameter styles.")
NA.pop("C22")
