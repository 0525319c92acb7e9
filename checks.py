"""What decides each property: (binary, scenario, arg, quick bounds, thorough bounds, thorough arg or None).

A bound "s,f" explores every execution with at most s scheduling deviations (preemptions, or a
different choice of the thread to continue) and at most f injected faults; input choices of the
scenarios are always enumerated completely.
"""
R = "explores every interleaving"


def P(binary, scenario, quick, thorough=None, arg=0, targ=None, **kw):
    return dict(bin=binary, sc=scenario, quick=quick, thorough=thorough or quick, arg=arg,
                targ=arg if targ is None else targ, **kw)


def RP(binary, scenario, quick, thorough=None, **kw):
    """The same with accesses which take part in a data race as additional scheduling points (nothing changes without races)."""
    return P("race_" + binary, scenario, quick, thorough, rp=True, **kw)


PLAN = {
    "C01": [
        P("proxy", "auth_wrong", "0,0", "0,0 1,0"),
        P("proxy", "auth_right", "0,0", "0,0 1,0"),
        P("proxy", "auth_bytes", "0,0", "0,0 1,0"),
        P("proxy", "auth_replay", "0,0", "0,0 1,0"),
        P("proxy", "auth_fault", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3"),
        P("proxy", "auth_malformed", "0,0", "0,0 1,0"),
        P("proxy", "auth_race", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
        RP("proxy", "auth_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("many", "many_sessions", "0,0"),
    ],
    "C02": [
        P("proxy", "policy_inputs", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "policy_reopen", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "policy_reopen", "0,0 1,0", "0,0 1,0 2,0", arg=1),
        P("proxy", "policy_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        RP("proxy", "policy_race", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "policy_fault", "0,1 0,2 0,3 1,2", "0,1 0,2 0,3 1,2 2,2 1,3"),
    ],
    "C03": [
        P("proxy", "c2n_seq", "0,0 0,1", "0,0 0,1 1,1"),
        P("proxy", "c2n_seq", "0,0 0,1", "0,0 0,1", arg=2),
        P("proxy", "c2n_addr", "0,0", "0,0 1,0"),
        P("proxy", "c2n_size", "0,0 0,1", "0,0 0,1 0,2"),
        P("proxy", "relay_fail", "0,0 0,1", "0,0 0,1 0,2 0,3", targ=4),
        P("proxy", "relay_hist", "0,0", "0,0", arg=4, targ=5),
        P("proxy", "c2n_race", "0,0 1,0 2,0 0,1 1,1 2,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 4,0 3,1"),
        RP("proxy", "c2n_race", "0,0 1,0 2,0 0,1", "0,0 1,0 2,0 3,0 0,1 1,1"),
        P("many", "many_ops", "0,0"),
        P("many", "many_ops", "0,0", arg=66000),
        P("proxy", "idle_long", "0,0", "0,0 1,0"),
        P("proxy", "c2n_huge", "0,0"),
    ],
    "C04": [
        P("proxy", "n2c_seq", "0,0 0,1", "0,0 0,1 1,1"),
        P("proxy", "relay_hist", "0,0", "0,0", arg=4, targ=5),
        P("proxy", "n2c_race", "0,0 1,0 2,0 3,0 0,1 1,1 2,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 4,0 3,1"),
        RP("proxy", "n2c_race", "0,0 1,0 2,0 0,1", "0,0 1,0 2,0 3,0 0,1 1,1"),
        P("many", "many_ops", "0,0"),
        P("many", "many_ops", "0,0", arg=66000),
        P("proxy", "idle_long", "0,0", "0,0 1,0"),
        P("proxy", "n2c_addr", "0,0"),
    ],
    "C05": [
        P("proxy", "tcp_life", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "tcp_life", "2,0", "2,0 3,0", arg=2),
        P("proxy", "relay_hist", "0,0", "0,0", arg=4, targ=5),
        P("proxy", "tcp_life", "0,0", "0,0", arg=1),
        P("proxy", "tcp_addr", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "relay_fail", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3", targ=4),
        RP("proxy", "tcp_life", "0,0 1,0", "0,0 1,0 2,0"),
        RP("proxy", "tcp_life", "2,0", "2,0 3,0", arg=2),
        P("many", "many_ops", "0,0"),
        P("many", "many_ops", "0,0", arg=66000),
        P("proxy", "idle_long", "0,0", "0,0 1,0"),
    ],
    "C06": [
        P("proxy", "slots_hist", "0,0", arg=6, targ=8),
        P("proxy", "slots_hist", "0,0", arg=16, targ=18),
        P("proxy", "slots_hist", "0,0", arg=110, targ=114),
        P("proxy", "slots_fail", "0,1", "0,1 1,1"),
        P("proxy", "slots_arrive", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=2),
        P("proxy", "slots_arrive", "0,0 1,0", "0,0 1,0 2,0", arg=3),
        P("proxy", "drop_anytime", "0,0 1,0", "0,0 1,0"),
        RP("proxy", "slots_arrive", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=2),
        P("proxy", "slots_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("proxy", "slots_race", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0", arg=1),
        RP("proxy", "slots_race", "0,0 1,0", "0,0 1,0 2,0"),
        RP("proxy", "slots_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=1),
        P("many", "many_slots", "0,0"),
        P("many", "many_sessions", "0,0"),
        P("many", "many_sessions", "0,0", arg=66000),
        P("proxy", "vanish", "0,0", "0,0 1,0"),
    ],
    "C07": [
        P("proxy", "slots_hist", "0,0", arg=7, targ=9),
        P("proxy", "slots_hist", "0,0", arg=17, targ=19),
        P("proxy", "slots_hist", "0,0", arg=112, targ=114),
        P("proxy", "slots_hist", "0,0", arg=209, targ=211),
        P("proxy", "slots_buckets", "0,0"),
        P("proxy", "slots_race", "0,0 1,0", "0,0 1,0 2,0"),
        RP("proxy", "slots_race", "0,0 1,0", "0,0 1,0 2,0"),
        P("many", "many_slots", "0,0"),
    ],
    "C08": [
        P("proxy", "relay_hist", "0,0", "0,0", arg=14, targ=15),
        P("proxy", "auth_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("proxy", "iso_consecutive", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("proxy", "iso_concurrent", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("proxy", "iso_open", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("proxy", "iso_stall", "0,0 1,0", "0,0 1,0 2,0"),
        RP("proxy", "iso_open", "0,0 1,0 2,0", "0,0 1,0 2,0"),
        RP("proxy", "iso_consecutive", "0,0 1,0", "0,0 1,0 2,0"),
        RP("proxy", "iso_concurrent", "0,0 1,0", "0,0 1,0 2,0"),
        P("many", "many_slots", "0,0"),
        P("proxy", "idle_long", "0,0", "0,0 1,0"),
        P("proxy", "vanish", "0,0", "0,0 1,0"),
    ],
    "C09": [
        P("proxy", "close_anytime", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "close_anytime", "2,0", "2,0 3,0", arg=1),
        P("proxy", "close_anytime", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=2),
        P("proxy", "close_registrar", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        RP("proxy", "close_anytime", "0,0 1,0", "0,0 1,0 2,0"),
        RP("proxy", "close_anytime", "2,0", "2,0 3,0", arg=1),
        RP("proxy", "close_registrar", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("proxy", "vanish", "0,0", "0,0 1,0"),
    ],
    "C10": [
        P("proxy", "graceful", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
        P("proxy", "graceful_full", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
        RP("proxy", "graceful_full", "0,0 1,0", "0,0 1,0 2,0"),
        RP("proxy", "graceful", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("proxy", "idle_long", "0,0", "0,0 1,0"),
    ],
    "C11": [
        P("proxy", "hostile", "0,0", "0,0 1,0"),
        P("proxy", "hostile_preauth", "0,0", "0,0 1,0"),
        P("proxy", "hostile_race", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
        P("proxy", "client_addr", "0,0 1,0", "0,0 1,0 2,0"),
        RP("proxy", "hostile_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("many", "many_sessions", "0,0"),
        P("many", "many_sessions", "0,0", arg=66000),
    ],
    "C12": [
        P("unit", "worker_seq", "0,0 1,0", "0,0 1,0 2,0", arg=6, targ=7),
        P("unit", "worker_seq", "0,1 0,2", "0,1 0,2 1,2", arg=6, targ=7),
        P("unit", "worker_conc", "0,0 1,0 2,0 3,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 4,0"),
        P("unit", "worker_conc", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0 0,1 1,1 2,1", arg=1),
        P("unit", "worker_conc", "0,0 1,0 2,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1", arg=2),
        P("unit", "worker_many", "0,0"),
        P("unit", "worker_periodic", "0,0 1,0 2,0 3,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 4,0"),
        RP("unit", "worker_conc", "0,0 1,0 2,0 3,0 0,1 1,1", "0,0 1,0 2,0 3,0 4,0 0,1 1,1"),
        RP("unit", "worker_conc", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=1),
        RP("unit", "worker_periodic", "0,0 1,0 2,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1"),
    ],
    "C13": [
        P("unit", "lock_modes", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 4,0 5,0 3,1 2,2", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 4,0 5,0 3,1 2,2 6,0 4,1 3,2 7,0 5,1 8,0"),
        P("unit", "lock_modes", "0,0 1,0 2,0 3,0 4,0 5,0 6,0", "0,0 1,0 2,0 3,0 4,0 5,0 6,0 7,0 8,0", arg=4),
        P("unit", "lock_coexist", "0,0 1,0 2,0 3,0 4,0 5,0 6,0 0,1 1,1 2,1 3,1 3,2", "0,0 1,0 2,0 3,0 4,0 5,0 6,0 0,1 1,1 2,1 3,1 3,2 7,0 8,0 5,1 4,2"),
        P("unit", "cond_handover", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 4,0 5,0 3,1 2,2", "0,0 1,0 2,0 3,0 4,0 5,0 0,1 1,1 2,1 3,1 2,2 6,0 4,1 3,2 7,0 5,1"),
        P("unit", "cond_timed", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 3,2", "0,0 1,0 2,0 3,0 0,1 1,1 2,1 3,2 4,2 3,3"),
        RP("unit", "lock_modes", "0,0 1,0 2,0 3,0 0,1 1,1", "0,0 1,0 2,0 3,0 4,0 0,1 1,1 2,1"),
        RP("unit", "lock_coexist", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
        RP("unit", "cond_handover", "0,0 1,0 2,0 3,0 4,0", "0,0 1,0 2,0 3,0 4,0 5,0"),
    ],
    "C14": [
        P("conn", "conn_recv_seq", "0,0 0,1 0,2 1,0 1,1 0,3", "0,0 0,1 0,2 1,0 1,1 0,3 2,0 2,1 1,2 0,4"),
        P("conn", "conn_recv_cut", "0,0 0,1 0,2 1,1 2,1 0,3", "0,0 0,1 0,2 1,1 2,1 0,3 3,1 2,2 1,3 0,4"),
        P("conn", "conn_send_seq", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3 1,1"),
        P("conn", "conn_duplex", "0,0 1,0 2,0 0,1 1,1 0,2 3,0 2,1 1,2", "0,0 1,0 2,0 0,1 1,1 0,2 3,0 2,1 1,2 4,0 3,1 2,2 1,3 5,0"),
        P("conn", "conn_cancel", "0,0 1,0 2,0 3,0 4,0 5,0 6,0", "0,0 1,0 2,0 3,0 4,0 5,0 6,0 7,0 8,0"),
        P("conn", "conn_setup_fault", "0,0 0,1 0,2 0,3", "0,0 0,1 0,2 0,3 0,4"),
        P("conn", "conn_refused", "0,0"),
        P("conn", "conn_names", "0,0"),
        P("conn", "conn_misuse", "0,0"),
        P("conn", "conn_udp", "0,0 0,1"),
        P("conn", "conn_many", "0,0"),
        P("conn", "conn_timeout", "0,0"),
        P("conn", "conn_text", "0,0"),
        RP("conn", "conn_duplex", "0,0 1,0 2,0 0,1", "0,0 1,0 2,0 3,0 0,1 1,1"),
        RP("conn", "conn_cancel", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
    ],
    "C15": [
        P("proxy", "reg_off", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "reg_off", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=1),
        P("proxy", "reg_none", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("proxy", "reg_history", "0,0", "0,0 1,0", arg=4, targ=5),
        P("proxy", "reg_converge", "0,0", "0,0 1,0"),
        P("proxy", "reg_converge", "0,0 1,0", "0,0 1,0 2,0", arg=2),
        P("proxy", "reg_converge", "1,0", "1,0 2,0", arg=1, cap=60),
        P("proxy", "reg_drain", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        RP("proxy", "reg_off", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=1),
        RP("proxy", "reg_converge", "0,0 1,0", "0,0 1,0 2,0", arg=2),
        P("many", "many_reports", "0,0"),
        P("many", "many_reports", "0,0", arg=66000),
    ],
    "C16": [
        P("proxy", "reg_content", "0,0"),
        P("proxy", "reg_send", "0,0 0,1 0,2 1,1 0,3 1,2 2,1", "0,0 0,1 0,2 1,1 0,3 1,2 2,1 2,2 1,3"),
        P("proxy", "reg_history", "0,0", "0,0 1,0", arg=4, targ=5),
        P("many", "many_reports", "0,0"),
        P("many", "many_reports", "0,0", arg=66000),
    ],
    "C17": [
        P("proxy", "fault_life", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3"),
        P("proxy", "fault_life", "0,1", "0,1 0,2", arg=1),
        P("proxy", "fault_life", "1,0 1,1", "1,0 1,1 2,1", arg=2),
        P("proxy", "fault_life", "0,1", "0,1 0,2", arg=3),
        P("proxy", "fault_two", "0,0 0,1 0,2", "0,0 0,1 0,2 1,1"),
        P("proxy", "fault_giveup", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3"),
        P("data", "client_fault", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3"),
        P("daemon", "daemon_fault", "0,1", "0,1 0,2"),
    ],
    "C18": [
        P("proxy", "api_hist", "0,0", arg=7, targ=8),
        P("proxy", "api_hist", "0,0", arg=18, targ=20),
        P("proxy", "fault_life", "0,0 0,1"),
        P("proxy", "fault_life", "0,0 0,1", arg=3),
        P("data", "conf_repeat", "0,0"),
        P("data", "log_proxy", "0,0"),
        P("proxy", "slots_buckets", "0,0"),
        P("many", "many_lives", "0,0"),
    ],
    "C19": [
        P("race_unit", "worker_conc", "0,0 1,0 2,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1"),
        P("race_unit", "worker_conc", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=1),
        P("race_unit", "worker_periodic", "0,0 1,0 2,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1"),
        P("race_unit", "worker_seq", "0,0 1,0", "0,0 1,0 2,0", arg=5, targ=6),
        P("race_unit", "lock_modes", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_unit", "lock_coexist", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_unit", "cond_handover", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_unit", "cond_timed", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_conn", "conn_duplex", "0,0 1,0 2,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1"),
        P("race_conn", "conn_cancel", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
        P("race_conn", "conn_timeout", "0,0 1,0"),
        P("race_data", "client_cancel", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_data", "log_threads", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_proxy", "policy_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_proxy", "reg_drain", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "auth_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_proxy", "slots_race", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "slots_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=1),
        P("race_proxy", "slots_hist", "0,0", arg=5, targ=7),
        P("race_proxy", "c2n_race", "0,0 1,0 2,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1"),
        P("race_proxy", "n2c_race", "0,0 1,0 2,0 0,1 1,1", "0,0 1,0 2,0 3,0 0,1 1,1 2,1"),
        P("race_proxy", "tcp_life", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "iso_consecutive", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "iso_concurrent", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "iso_open", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "close_anytime", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "drop_anytime", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "close_registrar", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "graceful", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_proxy", "hostile_race", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
        P("race_proxy", "reg_off", "0,0 1,0", "0,0 1,0 2,0"),
        P("race_proxy", "reg_converge", "0,0", "0,0 1,0"),
        P("race_proxy", "fault_life", "0,0 0,1", "0,0 0,1 0,2"),
        P("race_proxy", "fault_life", "1,0", "1,0 1,1", arg=2),
        P("race_daemon", "daemon_stop", "0,0 0,1", "0,0 0,1 1,1"),
        P("race_daemon", "daemon_drain", "0,0 0,1", "0,0 0,1 1,1"),
        P("race_daemon", "daemon_two", "0,0 0,1 1,1", "0,0 0,1 1,1 0,2 1,2"),
    ],
    "C20": [
        P("data", "conf_line", "0,0"),
        P("data", "conf_tokens", "0,0", arg=5, targ=6),
        P("data", "conf_length", "0,0"),
        P("data", "conf_repeat", "0,0"),
        P("data", "conf_list", "0,0"),
        P("data", "conf_readerr", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3"),
        P("data", "conf_sample", "0,0"),
        P("data", "conf_long", "0,0"),
    ],
    "C21": [
        P("data", "log_history", "0,0", arg=6, targ=7),
        P("data", "log_proxy", "0,0"),
        P("data", "log_text", "0,0"),
        P("data", "log_many", "0,0"),
        P("data", "log_threads", "0,0 1,0 2,0 3,0 4,0 5,0", "0,0 1,0 2,0 3,0 4,0 5,0 6,0 7,0"),
        RP("data", "log_threads", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
        P("race_data", "log_threads", "0,0 1,0", "0,0 1,0 2,0 3,0"),
    ],
    "C22": [
        P("data", "md5_length", "0,0"),
        P("data", "md5_split", "0,0"),
        P("data", "hex_convert", "0,0", arg=0),
        P("data", "hex_convert", "0,0", arg=1),
        P("data", "response", "0,0"),
        P("data", "interop", "0,0 0,1", "0,0 0,1 0,2 1,1"),
    ],
    "C23": [
        P("daemon", "daemon_args", "0,0", arg=4, targ=5),
    ],
    "C24": [
        P("daemon", "daemon_stop", "0,0 0,1 1,1", "0,0 0,1 1,1 0,2 2,1 1,2"),
        P("daemon", "daemon_stop", "0,1 0,2", "0,1 0,2 1,1 1,2", arg=1),
        P("daemon", "daemon_drain", "0,0 0,1 1,1", "0,0 0,1 1,1 0,2 2,1 1,2"),
        P("daemon", "daemon_two", "0,0 0,1 0,2 1,1 1,2", "0,0 0,1 0,2 1,1 1,2 2,1 2,2 0,3"),
        P("daemon", "daemon_die", "0,0 0,1 0,2 1,2", "0,0 0,1 0,2 0,3 1,2 1,3"),
        P("daemon", "daemon_die", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3 1,2", arg=1),
        P("daemon", "daemon_bad", "0,0"),
        P("daemon", "daemon_fault", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3"),
        RP("daemon", "daemon_two", "0,0 0,1 1,1", "0,0 0,1 1,1 1,2"),
        RP("daemon", "daemon_drain", "0,0 0,1 1,1", "0,0 0,1 1,1 2,1"),
    ],
    "C25": [
        P("proxy", "drop_anytime", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "drop_anytime", "2,0", "2,0 3,0", arg=1),
        P("proxy", "drop_anytime", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0", arg=2),
        RP("proxy", "drop_anytime", "0,0 1,0", "0,0 1,0 2,0"),
        P("proxy", "api_hist", "0,0", arg=5, targ=6),
        P("proxy", "vanish", "0,0", "0,0 1,0"),
    ],
    "C26": [
        P("data", "client_login", "0,0", "0,0 1,0"),
        P("data", "client_unreach", "0,0"),
        P("data", "client_cancel", "0,0 1,0 2,0 3,0 4,0", "0,0 1,0 2,0 3,0 4,0 5,0 6,0"),
        P("data", "client_fault", "0,0 0,1 0,2", "0,0 0,1 0,2 0,3"),
        P("data", "interop", "0,0 0,1", "0,0 0,1 0,2"),
        RP("data", "client_cancel", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0"),
        P("data", "client_two", "0,0 1,0 2,0 3,0", "0,0 1,0 2,0 3,0 4,0 5,0"),
        RP("data", "client_two", "0,0 1,0 2,0", "0,0 1,0 2,0 3,0"),
    ],
}

for e in PLAN["C19"]:
    e["only"] = "race"  # what else goes wrong in these executions is for the other properties

# how each check is presented
LEVEL = {"C17": "fault_enumeration"}
TECH = {"C19": "stateless model checking with a vector-clock happens-before race detector on every execution explored"}
NOTE = {"C19": "Every conflicting pair of accesses (compiler-instrumented code and buffers passed to libc) in every execution within the "
               "bounds is compared by vector clocks; accesses through volatile are taken for atomic. Trusted: the simulated libc/kernel of mc/."}
QUICK_BUDGET = 240
ASSUME = [
    "sequentially consistent interleavings at the granularity of calls to pthread, socket, file, time and allocation functions "
    "(C19 shows that the code has no data races in the executions explored)",
    "the network, kernel and libc calls behave like the simulated ones of mc/ (their behaviour is compared with the real kernel by the conformance check)",
    "bounds as listed per scenario: number of threads, scheduling deviations, injected faults, input alphabet",
]
TECH_DEFAULT = "stateless model checking of the implementation: bounded exhaustive exploration of schedules, inputs and faults"
NOTE_DEFAULT = ("Every execution of the real code within the bounds given in checks.py and the evidence is run and checked. Trusted: the "
                "simulated libc/kernel of mc/, sequentially consistent interleaving at library calls.")
NA = {}
