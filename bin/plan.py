"""What each check runs.  sessions: how many generated sessions are executed;
keep: how many of them are validated by TLC event by event (besides every
session whose outcome differs from what its generator expects); secs: cap."""


def q(sessions, keep, secs=20, **k):
    return dict(sessions=sessions, keep=keep, secs=secs, **k)


# one process per zone: midnight jumps, half-hour and two-hour summer time,
# negative summer time, skipped and repeated days, plain POSIX rules
ZONES = ["America/New_York", "Europe/London", "America/Sao_Paulo", "Australia/Lord_Howe", "Pacific/Apia", "Europe/Dublin",
         "Asia/Tehran", "UTC"]
MORE_ZONES = ZONES + ["Africa/Casablanca", "America/St_Johns", "Antarctica/Troll", "Pacific/Kiritimati", "America/Caracas",
                      "Asia/Pyongyang", "Asia/Kolkata", "Asia/Beirut", "America/Havana", "Africa/Cairo", "Asia/Kathmandu",
                      "Pacific/Kwajalein", "Europe/Moscow", "America/Godthab", "EST5EDT", "Asia/Amman", "EST5EDT,M3.2.0,M11.1.0", "<+0330>-3:30", ":Europe/Paris"]

# the zones of MC_Clock
CLOCKS = ["XXX-1YYY-3:30,J60/2,J300/4", "AAA5BBB,J60/0,J300/1", "CCC-10:30DDD-11,J300/2,J60/2", "EEE0FFF1,J60/1,J300/1"]

PLAN = {
    "C01": dict(models=["Issue", "Cert"], quick=q(2000000, 500), thorough=q(2000000, 4000, 600)),
    "C02": dict(models=["Cert"], quick=q(2000000, 700), thorough=q(2000000, 6000, 600)),
    "C03": dict(models=["Build"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C04": dict(models=["Issue"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C08": dict(models=["Keys"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C09": dict(models=["Priv"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C10": dict(models=["Priv"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C11": dict(models=["Create"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C12": dict(models=["Signers"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C13": dict(models=["File"], quick=q(2000000, 400), thorough=q(2000000, 5000, 600)),
    "C14": dict(models=["Calendar", "Clock"], quick=q(4000000, 720, 14, zones=ZONES + CLOCKS, keep_scen=40), thorough=q(4000000, 6000, 120, zones=MORE_ZONES + CLOCKS, keep_scen=200)),
    "C15": dict(models=["Read"], quick=q(2000000, 1200), thorough=q(2000000, 5000, 600)),
    "C16": dict(models=["Write"], quick=q(2000000, 1200), thorough=q(2000000, 5000, 600)),
    "C17": dict(models=["Wild"], quick=q(2000000, 300), thorough=q(5000000, 3000, 900)),
    "C23": dict(models=["Memory"], quick=q(20000, 400), thorough=q(1000000, 4000, 300)),
    "C25": dict(models=["Fresh"], quick=q(300, 24), thorough=q(20000, 300, 600)),
    "C26": dict(models=["Asks"], quick=q(3000, 150), thorough=q(200000, 2000, 900)),
    "C18": dict(models=["Auth"], quick=q(2000000, 1200), thorough=q(2000000, 5000, 600)),
    "C19": dict(models=["Fido"], quick=q(2000000, 400), thorough=q(2000000, 5000, 600)),
    "C20": dict(models=["Piv"], quick=q(2000000, 400), thorough=q(2000000, 5000, 600)),
    "C21": dict(models=["X509"], quick=q(2000000, 1200), thorough=q(2000000, 5000, 600)),
    "C22": dict(models=["Der"], quick=q(2000000, 1200), thorough=q(2000000, 5000, 600)),
    "C24": dict(models=["Names"], quick=q(2000000, 1200), thorough=q(2000000, 5000, 600)),
    "C27": dict(models=["Pretty"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C28": dict(models=["Token"], token=True, quick=q(2000000, 300), thorough=q(2000000, 3000, 600),
                assumptions=["the emulated tokens (harness/src/card.rs, modelled in spec/Token.tla) answer PIV commands as YubiKeys do, and the yubikey and pcsc crates are as pinned"]),
    "C29": dict(models=["Ctap"], token=True, quick=q(300, 300, threads=60, keep_scen=400, scen_max=400),
                thorough=q(5000, 5000, 900, threads=60, keep_scen=8000, scen_max=8000),
                assumptions=["the emulated tokens (harness/src/hid.rs, modelled in spec/Ctap.tla) answer CTAP2 commands as FIDO tokens do, and the authenticator crate is as pinned"]),
    "C30": dict(models=["Why", "Signers", "Names"], quick=q(2000000, 500, keep_scen=250), thorough=q(2000000, 5000, 600)),
    "C05": dict(models=["Sig"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C06": dict(models=["Create"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
    "C07": dict(models=["Sig"], quick=q(2000000, 500), thorough=q(2000000, 5000, 600)),
}
ASSUMPTIONS = [
    "signatures, hashes and key derivation are perfect: the oracle events recorded next to each session (made by the harness with ring, num-bigint and bcrypt-pbkdf, not by the library) list exactly the valid ones",
    "TLC 1.8.0, its Json module and the TLA+ CommunityModules evaluate the specification correctly",
]
