from runner import Part

PROPS = {
    "S01": dict(
        parts=[Part("h_simd", 40000, 1500000)],
        need={"elements_compared": 100000},
        rule="one vector kernel on operands of one length (every length 1..80, then random up to 5000), conjugation flag and data scale; distinct by (kernel, length, conjugation)",
    ),
    "M01": dict(
        parts=[Part("h_moment", 1200, 40000, mode=m) for m in ("pp", "hop", "atsr", "ml", "sp")],
        need={"products_compared": 500000, "velocities": 50000},
        rule="one ray of random pulses through one estimator on a reused scratch space; distinct by (estimator, pulse count, gate count, lags, options)"),
    "M02": dict(parts=[Part("h_moment", 4000, 100000, mode="ray")], need={"gates_kept": 1000, "gates_censored": 1000}, rule="one ray written from random moments under random thresholds; distinct by (gate count, thresholds)"),
    "M03": dict(parts=[Part("h_moment", 4000, 100000, mode="cal")], need={"gates_calibrated": 10000}, rule="one random filter layout and calibration; distinct by (filters, ratio, gate count)"),
    "M04": dict(parts=[Part("h_moment", 3000, 100000, mode="noise")], need={"noise_estimates": 100, "noise_fallbacks": 100}, rule="one random power profile; distinct by (gate count, branch taken)"),
    "S02": dict(parts=[Part("h_dsp", 6000, 300000)], need={"values_compared": 100000}, rule="one primitive on one length and argument; distinct by (primitive, length, parameter)"),
    "W01": dict(parts=[Part("h_wave", 6000, 300000, mode="syn")], need={"samples_checked": 100000, "decimated": 100, "downconverted": 100, "windowed": 100}, rule="one waveform synthesised and put through three operations; distinct by (kind, length class, operation, parameter)"),
    "W02": dict(parts=[Part("h_wave", 1500, 60000, mode="file")], need={"round_trips": 300, "damaged_refused": 1000, "damaged_accepted": 100}, rule="one waveform written and read, then 12 damaged copies of the file read; distinct by (damage, outcome, entry point)"),
    "P01": dict(parts=[Part("h_pulse", 1200, 60000, timeout=40)], need={"pulses_compressed": 3000, "gates_compared": 100000, "pulses_skipped": 20}, rule="one engine run of up to 6 buffer lengths of pulses; distinct by (capacity, depth class, ratio, cores, input type, channels, overload)"),
    "R01": dict(parts=[Part("h_ring", 800, 40000, timeout=40)], need={"pulses_filtered": 10000, "gates_compared": 1000000, "responses_checked": 100}, rule="one engine run of up to 6 buffer lengths of pulses; distinct by (capacity, gates, region, cores, taps)"),
    "P02": dict(parts=[Part("h_pos", 400, 20000, timeout=60)], need={"pulses_tagged": 20000, "sweep_begins": 500, "sweep_ends": 500, "configurations": 500}, rule="one engine run over a random pedestal history; distinct by (buffer depths, positions, positions per pulse)"),
    "Y01": dict(parts=[Part("h_ray", 4000, 150000, timeout=60)], need={"rays_checked": 5000, "values_compared": 500000, "rays_skipped": 300, "pulses_dropped": 100}, rule="one engine run of up to 6 buffer lengths of pulses; distinct by (capacity, depths, ratio, cores, estimator, boundary mode, consumer)"),
    "N01": dict(parts=[Part("h_prod", 2400, 60000)], need={"files_inspected": 500, "values_compared": 1000000, "sweeps_read": 100, "collections_read": 100, "incomplete_refused": 100}, rule="one product written, inspected through the NetCDF library and read back, or up to 16 products of one sweep read together; distinct by (dimensions, scan type, symbol or set of files)"),
    "N02": dict(parts=[Part("h_prod", 1500, 40000, mode="odd")], need={"odd_products": 200, "odd_sweeps": 100, "oddities": 3000}, rule="one NetCDF file of unusual dimensions, ranks, types, attribute lengths or damage, read as a product and as a sweep; distinct by (dimensions, variables, outcome)"),
    "E01": dict(parts=[Part("h_sweep", 640, 20000, timeout=60)], need={"recordings": 5000, "values_compared": 1000000, "sweeps": 2000, "sweeps_not_recorded": 300, "sweeps_trimmed": 50, "flushes": 100, "files_reported": 1000, "scripts_called": 50, "stopped_busy": 20}, rule="one engine run over a random sequence of sweeps; distinct sweeps by (rays, products, recorded, slowness of the recorder, buffer depth)"),
    "D01": dict(parts=[Part("h_raw", 4800, 120000, timeout=60)], need={"runs_compared": 1000, "pulses_found": 100000, "files_read": 3000, "toggles": 3000, "damaged_read": 300, "write_faults": 20, "stopped_busy": 50, "finished_late": 10000, "damaged_refused": 100, "old_headers_read": 20}, rule="one recorder run over a random pulse history, then every file read twice; distinct by (buffer depth, capacity, data type, toggling, limit, files, early stop)"),
    "C01": dict(parts=[Part("h_cfg", 12000, 400000, timeout=60)], need={"changes_checked": 400000, "setters_checked": 40000, "wrapped": 3000, "after_radar_free": 2000, "all_threads_accounted": 2500, "reads_checked": 100000}, rule="one random history of configuration changes by 1 to 5 threads; distinct by (threads, changes, buffer depth, reader, delays)"),
    "F01": dict(parts=[Part("h_fmd", 240, 12000, timeout=60), Part("h_fm", 64, 4000, timeout=60)], need={"states_compared": 200, "files_removed": 5000, "over_capacity": 200, "within_capacity": 200, "bad_reports": 400, "old_logs": 150, "stopped_while_reporting": 15, "user_limits": 30, "files_checked": 20000}, rule="one run of the file manager over a random data folder and history of reports; distinct by (files before, files reported, phase, which kinds fit the list, user limits, early stop)"),
    "H01": dict(parts=[Part("h_health", 112, 4000, timeout=60)], need={"healths": 2000, "fresh": 4000, "old": 1500, "reads": 1500, "to_record": 500, "not_to_record": 200, "log_files": 200, "left_out": 100, "gps_headings": 400, "heading_updates": 10, "location_updates": 10, "overviews": 1500}, rule="one run of the collector and the logger over random nodes, reports and silences; distinct healths by (old nodes, nodes left out, overrides, values, kind of GPS)"),
    "J01": dict(parts=[Part("h_json", 240000, 6000000)], need={"values": 240000, "conditions": 180000, "healths": 24000, "documents": 24000, "odd_texts": 48000, "texts": 24000, "columns": 24000, "products": 24000, "replaced": 12000, "too_long": 20}, rule="one document, health, damaged text or set of text operations; distinct by (kind, entries, length class, style) and for damaged texts by content"),
    "V01": dict(parts=[Part("h_steer", 800, 40000, mode="quick", timeout=120), Part("h_steer", 32, 800, mode="conc", timeout=60), Part("h_steer", 32, 800, mode="conc", variant="tsan", timeout=120)], need={"commands": 2500, "positions": 10000000, "sweeps": 8000, "ppis": 2000, "rhis": 2000, "sectors": 800, "points": 80, "volumes": 3000, "refused": 80, "long_answers": 80, "many": 40, "conc_commands": 10000, "conc_active": 200000}, rule="one pedestal and one session of up to 8 commands with the time between them; distinct by (command, lengths of the volumes, course) and by (mode, rate, elevation, azimuth) of the sweeps"),
    "L01": dict(parts=[Part("h_radar", 128, 4000, mode="life", timeout=200)], need={"lives": 60, "stops": 45, "devices": 120, "waveforms": 80, "on_air_checked": 30, "modules": 25, "module_calls": 500, "soft_restarts": 3, "noise_measured": 10, "failed_starts": 3, "emulated": 5, "rays": 200, "settings_kept": 20}, rule="one radar from a random description with its devices and user module, through up to two lives with random changes of setting; distinct by (flags, depths, devices, module, sequence of changes)"),
    "X01": dict(parts=[Part("h_cmd", 160, 3000, mode="exec", timeout=120)], need={"commands": 6000, "told": 900, "changed": 2000, "volumes": 400, "clears": 40, "helps": 40, "restarts": 4, "together": 5000}, rule="100 to 300 commands to one live radar with a random set of devices, then rounds of two or three operators; distinct by (kind, letters, devices, length, answer buffer)"),
    "X02": dict(parts=[Part("h_center", 40, 1500, timeout=200, shards=5)], workers=5, need={"packets": 6000, "rays": 3000, "sweeps": 50, "sweeps_in_turn": 20, "texts": 300, "healths": 150, "statuses": 500, "pulses": 300, "answers": 600, "controls": 20, "returned": 5, "radars_removed": 8, "clients": 60, "fresh": 20}, rule="one live radar with other radars, and one to five clients that send random commands and streams; distinct by (client, streams, way of leaving, commands)"),
    "K01": dict(parts=[Part("h_net", 640, 20000, mode="send", timeout=60), Part("h_net", 480, 16000, mode="srv", timeout=120), Part("h_net", 160, 6000, mode="cli", timeout=120)], need={"sends_whole": 6000, "sends_given_up": 300, "sends_to_closed": 400, "connections": 1200, "commands_executed": 15000, "frames_read": 30000, "clients_reset": 100, "clients_bye": 150, "clients_until_stop": 100, "clients_busy": 150, "cli_messages": 3000, "cli_reconnections": 100, "cli_damaged": 30, "cli_stopped_connected": 40, "clients_stopped_early": 10}, rule="20 sends over one socket pair each, or one server with up to 3 rounds of clients, or one client over up to 3 connections; distinct by (sender, payloads, blocking, pace, size), by (end, commands, pace, frames) of a client, by (format, block, connections, messages)"),
    "K02": dict(parts=[Part("h_ws", 144, 4000, timeout=120)], need={"payloads": 3000, "opens": 60, "messages": 1000, "pongs": 300, "pings": 50, "reconnections": 40, "refused_handshakes": 20, "cut_off": 15, "long_frames": 5, "bursts": 300, "addresses": 100, "oversize": 5, "tls": 10}, rule="one web socket through one to five connections to a server that answers, talks, cuts and refuses at random, plain or TLS, or twenty addresses; distinct by (handshake, end, place, TLS, payloads)"),
    "K03": dict(parts=[Part("h_dev", 40, 1200, timeout=250)], need={"reports": 2000, "positions": 700, "actions": 250, "healths": 400, "fixes": 600, "events": 30, "commands": 120, "too_long": 4, "reconnections": 12, "pedestal_healths": 4, "greetings": 30, "not_connected": 30, "refused": 30, "early": 3}, rule="one device (pedestal, health relay or GPS) through one to four connections of its server, with up to three threads that send commands; distinct by (device, connections, ended early, commanders, reports, actions)"),
    "K04": dict(parts=[Part("h_hub", 80, 3000, timeout=250)], need={"healths": 800, "pulses": 600, "rays": 1200, "introductions": 60, "answers": 700, "greetings": 80, "reconnections": 25, "refusals": 3, "stops": 70, "restarts": 8}, rule="one reporter through one to four connections to a hub that talks, closes, resets and refuses at random, while the radar goes on; distinct by (connections, ended early, host, starts, strides, streams, messages)"),
    "G01": dict(parts=[Part("h_clock", 16000, 400000)], need={"times": 40000000, "increments": 10000000, "exact": 5000000, "still": 1000000, "resets": 10000, "gaps": 4000, "refused": 300}, rule="one clock and up to tens of thousands of tics; distinct by (size, stride, kind of delay, rate, offset, wisdom)"),
    "T01": dict(parts=[Part("h_text", 320, 12000, mode="log", timeout=60), Part("h_text", 96, 3000, mode="log", variant="tsan", timeout=90), Part("h_text", 6000, 200000, mode="fmt", timeout=60)], need={"records": 20000, "cut": 500, "screens": 80, "logs": 200, "together": 100, "over_midnight": 4, "values": 600000, "paths": 30000, "streams": 30000, "values_together": 500}, rule="one set of threads and messages into one choice of files, or 400 values per thread and 10 to 50 paths and streams; distinct by (threads, choice of file, colors, screen, folder length, messages)"),
    "B01": dict(parts=[Part("h_buf", 8000, 300000, mode="buf", timeout=60), Part("h_buf", 800, 20000, mode="queue", timeout=60), Part("h_buf", 400, 8000, mode="queue", variant="tsan", timeout=90)], need={"areas": 800000, "turns": 50000, "split": 1000000, "copies": 2000, "copies_around": 500, "cleared": 20000, "scratch_areas": 60000, "refused": 300, "indices": 100000, "queued": 40000, "full": 2000, "empty": 1000}, rule="one buffer of one capacity and depth through filling, turning, splitting, copying and clearing, or one queue with a sequence of pushes and pops; distinct by (capacity, depth, slots cleared) and (depth, blocking, commands, paces)"),
}
