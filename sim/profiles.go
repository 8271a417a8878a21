package main

// One profile per property: what its runs consist of.

type m map[string]int

func pairBase() m {
	return m{"send": 20, "dlv": 30, "dup": 4, "bundle": 1, "archive": 1, "restart": 2, "newot": 1, "newspk": 1, "mut": 1, "ff": 1}
}

func groupBase() m {
	return m{"gdist": 2, "gproc": 4, "gsend": 20, "gdlv": 30, "gdup": 4, "restart": 2, "grot": 1, "gmut": 1, "gff": 1}
}

func (a m) with(b m) m {
	c := m{}
	for k, v := range a {
		c[k] = v
	}
	for k, v := range b {
		c[k] = v
	}
	return c
}

var anyMode = []int{storeRepo, storeRepo, storeSnap, storeSer}

func prof(name string, nodes, dists, steps [2]int, w, mac m, fault, ref float64, flags string) *Profile {
	return &Profile{name: name, nodes: nodes, dists: dists, steps: steps, w: w, mac: mac, fault: fault, ref: ref, flags: flags, modes: anyMode}
}

// mixed profiles are shared: everything at once.
func mixed() *Profile {
	return prof("mixed", [2]int{2, 4}, [2]int{1, 3}, [2]int{20, 60},
		pairBase().with(groupBase()).with(m{"mut": 5, "gmut": 5, "badbundle": 2, "accept": 1, "clear": 1, "reinstall": 1, "block": 1, "par": 6, "capture": 1, "twin": 1, "garbage": 1, "degen": 1, "damage": 1, "ff": 1, "gff": 1, "init": 1, "altsign": 1, "altver": 1, "ppk": 1}),
		m{"warp": 1, "gwarp": 1, "unanswered": 1, "farold": 1, "pingpong": 3, "burst": 3, "cross": 2, "held": 1, "oldsession": 2, "gburst": 2, "grotate": 1, "gregress": 1, "mitm": 1, "heal": 1, "replaystart": 1, "crashloop": 1, "gcrashloop": 1, "rekey": 1, "glate": 1},
		0.12, 0.15, "")
}

var profiles = map[string][]*Profile{
	"C01": {
		prof("order", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 60}, pairBase(), m{"unanswered": 2, "farold": 2, "pingpong": 6, "burst": 8, "bigburst": 1, "held": 4, "cross": 2, "oldsession": 2}, 0.02, 0.15, ""),
		prof("deep", [2]int{2, 2}, [2]int{0, 0}, [2]int{6, 14}, pairBase(), m{"overflow": 30, "far": 8, "held": 6, "sessions": 4, "farold": 4, "warp": 12, "marathon": 6}, 0, 0.1, ""),
		prof("forged", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"mut": 14}), m{"pingpong": 3, "burst": 3, "held": 1}, 0.04, 0, ""),
	},
	"C02": {
		prof("repeat", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"dup": 25, "archive": 3, "restart": 4}), m{"replaystart": 10, "pingpong": 4, "burst": 4, "held": 2, "oldsession": 3, "cross": 2}, 0.08, 0.1, ""),
		prof("deep", [2]int{2, 2}, [2]int{0, 0}, [2]int{6, 14}, pairBase().with(m{"dup": 20}), m{"overflow": 8, "held": 6, "sessions": 8, "replaystart": 8, "farold": 5, "warp": 5}, 0, 0, ""),
		prof("forged", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"dup": 10, "mut": 20}), m{"replaystart": 8, "pingpong": 3, "burst": 3}, 0.05, 0, ""),
		prof("secrets", [2]int{2, 3}, [2]int{0, 0}, [2]int{15, 40}, pairBase().with(m{"dup": 10, "capture": 4}), m{"replaystart": 5, "pingpong": 3, "burst": 3, "oldsession": 2}, 0.08, 0, "S"),
	},
	"C03": {
		prof("forged", [2]int{2, 4}, [2]int{0, 0}, [2]int{30, 80}, pairBase().with(m{"mut": 60, "badbundle": 3}), m{"pingpong": 4, "burst": 3, "cross": 2, "oldsession": 2, "replaystart": 2, "mitm": 2}, 0.02, 0.1, ""),
		prof("impostor", [2]int{3, 4}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"mut": 40, "accept": 2, "reinstall": 1, "degen": 2, "init": 2}), m{"mitm": 6, "pingpong": 4, "rekey": 1}, 0.02, 0, ""),
	},
	"C04": {
		prof("forged", [2]int{2, 4}, [2]int{0, 2}, [2]int{25, 60}, pairBase().with(groupBase()).with(m{"mut": 40, "gmut": 25, "badbundle": 6, "dup": 10, "gdup": 6}), m{"pingpong": 4, "burst": 3, "oldsession": 2, "replaystart": 3, "mitm": 3, "gburst": 2, "gregress": 2}, 0.02, 0.05, ""),
		prof("untrusted", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"mut": 15, "badbundle": 10, "accept": 3, "clear": 1, "reinstall": 3, "degen": 4, "block": 3, "ppk": 4}), m{"mitm": 8, "rekey": 6, "pingpong": 3, "held": 2}, 0.02, 0, ""),
		prof("deep", [2]int{2, 2}, [2]int{1, 1}, [2]int{6, 14}, pairBase().with(m{"mut": 20}), m{"overflow": 6, "far": 6, "sessions": 4, "goverflow": 3, "gfar": 3}, 0, 0, ""),
	},
	"C05": {
		prof("faults", [2]int{2, 3}, [2]int{0, 0}, [2]int{25, 60}, pairBase().with(m{"bundle": 4, "restart": 4, "accept": 1, "ppk": 4}), m{"pingpong": 6, "burst": 5, "cross": 3, "oldsession": 3, "crashloop": 12, "replaystart": 3}, 0.35, 0.05, ""),
		prof("par", [2]int{3, 4}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"par": 15, "mut": 5}), m{"pingpong": 3, "crashloop": 6, "held": 2, "rekey": 2}, 0.25, 0, ""),
		prof("deep", [2]int{2, 2}, [2]int{0, 0}, [2]int{6, 12}, pairBase(), m{"overflow": 5, "sessions": 4, "crashloop": 8}, 0.3, 0, ""),
	},
	"C06": {
		prof("faults", [2]int{2, 4}, [2]int{1, 2}, [2]int{25, 60}, m{"send": 40, "dlv": 20, "bundle": 5, "restart": 6, "archive": 2, "gsend": 30, "gdist": 4, "gproc": 3, "gdlv": 8, "grot": 3, "par": 6, "reinstall": 1}, m{"pingpong": 6, "burst": 5, "cross": 4, "oldsession": 3, "crashloop": 8, "gcrashloop": 8, "gburst": 4, "grotate": 3, "rekey": 1}, 0.3, 0.05, ""),
		prof("calm", [2]int{2, 4}, [2]int{1, 3}, [2]int{25, 60}, m{"send": 40, "dlv": 20, "bundle": 3, "restart": 3, "archive": 2, "gsend": 30, "gdist": 4, "gproc": 3, "gdlv": 8, "grot": 4, "twin": 4, "ff": 2, "gff": 2}, m{"warp": 3, "gwarp": 3, "pingpong": 8, "bigburst": 1, "cross": 4, "oldsession": 4, "gburst": 4, "gregress": 4}, 0, 0, ""),
	},
	"C07": {
		prof("secrets", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"capture": 10, "restart": 1}), m{"pingpong": 6, "burst": 5, "held": 2, "oldsession": 3, "cross": 2, "compromise": 5, "gburst": 3, "gregress": 2, "replaystart": 2}, 0.05, 0, "S"),
		prof("faults", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"capture": 10, "mut": 4}), m{"pingpong": 4, "burst": 3, "crashloop": 5, "gcrashloop": 3, "compromise": 3}, 0.2, 0, "S"),
		prof("deep", [2]int{2, 2}, [2]int{1, 1}, [2]int{6, 12}, pairBase().with(m{"capture": 10}), m{"overflow": 6, "goverflow": 4, "held": 6, "sessions": 2}, 0, 0, "S"),
	},
	"C08": {
		prof("heal", [2]int{2, 3}, [2]int{0, 0}, [2]int{15, 40}, m{"send": 20, "dlv": 30, "capture": 6, "twin": 12, "bundle": 1, "dup": 2, "restart": 2}, m{"marathon": 2, "heal": 20, "pingpong": 10, "compromise": 8, "burst": 3, "held": 2, "cross": 2, "oldsession": 1}, 0.02, 0.1, ""),
		prof("faults", [2]int{2, 3}, [2]int{0, 0}, [2]int{15, 40}, m{"send": 20, "dlv": 30, "capture": 6, "twin": 8, "bundle": 2, "archive": 1, "restart": 3, "mut": 3}, m{"heal": 12, "pingpong": 6, "compromise": 8, "crashloop": 5, "oldsession": 3}, 0.2, 0, ""),
	},
	"C09": {
		prof("identities", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"accept": 8, "clear": 3, "reinstall": 5, "badbundle": 10, "mut": 8, "bundle": 5, "block": 5, "ppk": 6}), m{"mitm": 12, "rekey": 12, "cross": 3, "oldsession": 3, "pingpong": 3}, 0.03, 0.1, ""),
		prof("faults", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"accept": 4, "clear": 2, "reinstall": 4, "badbundle": 8, "bundle": 4, "mut": 10, "block": 5, "ppk": 5}), m{"mitm": 6, "rekey": 8, "crashloop": 10, "pingpong": 2}, 0.35, 0, ""),
		prof("stores", [2]int{2, 2}, [2]int{1, 1}, [2]int{4, 10}, m{"idop": 30, "send": 5, "dlv": 8, "accept": 5, "clear": 3, "reinstall": 2}, m{"rekey": 3, "mitm": 3}, 0, 0, ""),
	},
	"C10": {
		prof("handshake", [2]int{2, 4}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"bundle": 15, "badbundle": 12, "newot": 3, "newspk": 4, "mut": 8, "init": 3, "ppk": 10}), m{"unanswered": 10, "replaystart": 10, "cross": 8, "oldsession": 6, "burst": 4, "pingpong": 2}, 0.03, 0.2, ""),
		prof("faults", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"bundle": 10, "newot": 3, "newspk": 2, "mut": 6, "reinstall": 1, "ppk": 6}), m{"unanswered": 4, "replaystart": 8, "cross": 4, "crashloop": 12, "oldsession": 3}, 0.3, 0, ""),
		prof("outer", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"bundle": 6, "newot": 3, "newspk": 3, "mut": 40, "degen": 2}), m{"replaystart": 12, "cross": 4, "oldsession": 3}, 0.02, 0, ""),
	},
	"C11": {
		prof("crossing", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, pairBase().with(m{"bundle": 8, "archive": 6, "ppk": 5}), m{"farold": 4, "unanswered": 2, "cross": 14, "oldsession": 12, "held": 2, "replaystart": 2, "burst": 2, "rekey": 1}, 0.03, 0.15, "L"),
		prof("many", [2]int{2, 2}, [2]int{0, 0}, [2]int{6, 14}, pairBase().with(m{"archive": 4}), m{"farold": 10, "sessions": 40, "cross": 6, "oldsession": 6}, 0, 0.05, "L"),
		prof("faults", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 40}, pairBase().with(m{"bundle": 8, "archive": 4, "mut": 4}), m{"cross": 8, "oldsession": 8, "crashloop": 5}, 0.25, 0, "L"),
	},
	"C12": {
		prof("order", [2]int{2, 4}, [2]int{1, 3}, [2]int{25, 60}, groupBase(), m{"gburst": 10, "grotate": 8, "gregress": 8, "glate": 4}, 0.03, 0.15, "L"),
		prof("deep", [2]int{2, 3}, [2]int{1, 1}, [2]int{6, 14}, groupBase(), m{"goverflow": 20, "gfar": 6, "grotate": 8, "gregress": 4, "gwarp": 14}, 0, 0.1, "L"),
		prof("forged", [2]int{2, 4}, [2]int{1, 3}, [2]int{20, 50}, groupBase().with(m{"gmut": 20, "grot": 3}), m{"gburst": 4, "grotate": 6, "gregress": 4}, 0.05, 0, "L"),
	},
	"C13": {
		prof("repeat", [2]int{2, 4}, [2]int{1, 2}, [2]int{25, 60}, groupBase().with(m{"gdup": 25, "gproc": 10, "grot": 3}), m{"gburst": 6, "grotate": 8, "gregress": 12, "glate": 3}, 0.08, 0.05, "S"),
		prof("deep", [2]int{2, 3}, [2]int{1, 1}, [2]int{6, 14}, groupBase().with(m{"gdup": 25}), m{"goverflow": 15, "gfar": 4, "gregress": 6, "gwarp": 8}, 0, 0, ""),
		prof("forged", [2]int{2, 4}, [2]int{1, 2}, [2]int{20, 50}, groupBase().with(m{"gdup": 15, "gmut": 15, "capture": 3}), m{"gburst": 3, "gregress": 6}, 0.05, 0, ""),
	},
	"C14": {
		prof("forged", [2]int{3, 4}, [2]int{1, 3}, [2]int{30, 80}, groupBase().with(m{"gmut": 60}), m{"gburst": 5, "grotate": 5, "glate": 8, "gregress": 4}, 0.02, 0.1, ""),
		prof("late", [2]int{2, 4}, [2]int{1, 3}, [2]int{20, 50}, groupBase().with(m{"gmut": 15, "degen": 2, "gff": 2}), m{"glate": 25, "grotate": 5, "gregress": 3}, 0.03, 0, ""),
	},
	"C15": {
		prof("faults", [2]int{2, 4}, [2]int{1, 2}, [2]int{25, 60}, groupBase().with(m{"gdist": 8, "gproc": 8, "restart": 4}), m{"gburst": 6, "grotate": 5, "gregress": 6, "gcrashloop": 15, "glate": 3}, 0.35, 0.05, ""),
		prof("par", [2]int{3, 4}, [2]int{2, 3}, [2]int{20, 50}, groupBase().with(m{"par": 15, "gmut": 4}), m{"gburst": 3, "gcrashloop": 8, "gregress": 3}, 0.25, 0, ""),
		prof("deep", [2]int{2, 2}, [2]int{1, 1}, [2]int{6, 12}, groupBase(), m{"goverflow": 8, "gcrashloop": 8}, 0.3, 0, ""),
	},
	"C16": {
		prof("overflow", [2]int{2, 2}, [2]int{1, 1}, [2]int{4, 12}, m{"send": 10, "dlv": 10, "dup": 4, "gsend": 3, "gdlv": 4, "mut": 3}, m{"warp": 8, "gwarp": 8, "overflow": 30, "goverflow": 25, "held": 12, "sessions": 10, "grotate": 8, "far": 10, "gfar": 10}, 0, 0.05, "L"),
		prof("far", [2]int{2, 2}, [2]int{1, 1}, [2]int{3, 8}, m{"send": 10, "dlv": 10, "mut": 4}, m{"far": 30, "gfar": 30, "held": 8}, 0, 0, "L"),
		prof("forged", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"mut": 30, "gmut": 15, "bundle": 6}), m{"held": 8, "oldsession": 6, "grotate": 6, "burst": 3}, 0.03, 0, "L"),
	},
	"C17": {
		prof("garbage", [2]int{2, 3}, [2]int{1, 2}, [2]int{15, 40}, pairBase().with(groupBase()).with(m{"garbage": 40, "degen": 30, "mut": 15, "gmut": 10, "badbundle": 5, "reinstall": 1}), m{"pingpong": 3, "burst": 2, "cross": 1, "oldsession": 1, "gburst": 1, "grotate": 1}, 0.08, 0, ""),
		prof("damage", [2]int{2, 3}, [2]int{1, 1}, [2]int{10, 25}, pairBase().with(m{"damage": 40, "garbage": 5}), m{"pingpong": 4, "burst": 3, "held": 2, "oldsession": 3}, 0.02, 0, ""),
		prof("faults", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"garbage": 5, "degen": 5, "mut": 10, "gmut": 5, "idop": 2, "rndop": 2, "safety": 1}), m{"crashloop": 10, "gcrashloop": 8, "rekey": 3, "mitm": 3}, 0.3, 0, ""),
	},
	"C18": {
		prof("par", [2]int{3, 4}, [2]int{2, 3}, [2]int{25, 60}, pairBase().with(groupBase()).with(m{"par": 50}), m{"pingpong": 3, "burst": 2, "gburst": 2, "cross": 1}, 0.05, 0, "A"),
		prof("buffers", [2]int{2, 4}, [2]int{1, 3}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"mut": 5, "gmut": 5, "idop": 2}), m{"pingpong": 4, "burst": 4, "held": 2, "gburst": 4, "gregress": 3, "grotate": 2, "oldsession": 2}, 0.03, 0, "ABR"),
	},
	"C19": {
		prof("interop", [2]int{2, 4}, [2]int{1, 2}, [2]int{25, 60}, pairBase().with(groupBase()).with(m{"bundle": 3}), m{"warp": 3, "gwarp": 3, "pingpong": 6, "burst": 5, "cross": 3, "oldsession": 3, "held": 3, "gburst": 4, "grotate": 3, "glate": 2}, 0.02, 0.6, ""),
		prof("library", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()), m{"pingpong": 6, "burst": 3, "gburst": 3, "cross": 2}, 0.02, 0.3, ""),
	},
	"C20": {
		prof("randomness", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"altsign": 5, "rndop": 20, "bundle": 8, "gdist": 6, "twin": 6}), m{"pingpong": 5, "crashloop": 10, "gcrashloop": 10, "cross": 2, "gburst": 3}, 0.4, 0, ""),
	},
	"C23": {
		prof("links", [2]int{2, 4}, [2]int{0, 0}, [2]int{25, 60}, m{"altsign": 20, "altver": 60, "bundle": 3, "badbundle": 3, "send": 3, "dlv": 3, "reinstall": 4, "newspk": 3, "restart": 1}, m{}, 0.05, 0.2, ""),
		prof("faults", [2]int{2, 3}, [2]int{0, 0}, [2]int{20, 50}, m{"altsign": 30, "altver": 30, "reinstall": 2, "newspk": 2}, m{}, 0.5, 0, ""),
	},
	"C24": {
		prof("reports", [2]int{2, 4}, [2]int{1, 2}, [2]int{25, 60}, pairBase().with(groupBase()).with(m{"bundle": 5, "newot": 2, "newspk": 2, "archive": 4, "mut": 4, "gmut": 3, "init": 2, "accept": 3, "reinstall": 2}), m{"rekey": 4, "pingpong": 6, "burst": 5, "held": 3, "cross": 4, "oldsession": 5, "replaystart": 3, "gburst": 4, "grotate": 4, "gregress": 4, "glate": 2, "warp": 1, "gwarp": 1}, 0.03, 0.15, "V"),
		prof("faults", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"bundle": 5, "archive": 2, "mut": 3, "par": 5, "restart": 3}), m{"pingpong": 4, "burst": 3, "cross": 3, "oldsession": 3, "crashloop": 10, "gcrashloop": 6, "gregress": 3}, 0.3, 0.05, "V"),
		prof("deep", [2]int{2, 2}, [2]int{1, 1}, [2]int{6, 12}, pairBase(), m{"overflow": 6, "held": 8, "sessions": 8, "goverflow": 4, "grotate": 6, "far": 2, "gfar": 2, "farold": 4, "unanswered": 2}, 0, 0.05, "V"),
	},
	"C25": {
		prof("messages", [2]int{2, 4}, [2]int{1, 3}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"mut": 15, "gmut": 10, "garbage": 4, "bundle": 5, "newot": 2, "newspk": 2, "init": 2, "reinstall": 1, "archive": 2}), m{"pingpong": 5, "burst": 4, "cross": 3, "oldsession": 2, "gburst": 3, "grotate": 3, "gregress": 2, "warp": 3, "gwarp": 3, "rekey": 1}, 0.05, 0.25, "M"),
		prof("faults", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"mut": 5, "bundle": 4, "par": 6, "restart": 3}), m{"pingpong": 4, "burst": 3, "cross": 2, "gburst": 3, "grotate": 2, "crashloop": 4, "gcrashloop": 4}, 0.3, 0.1, "M"),
	},
	"C26": {
		prof("supplied", [2]int{2, 4}, [2]int{1, 3}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"shelf": 20, "idop": 3, "archive": 3, "bundle": 4, "accept": 2, "clear": 1, "mut": 3, "gmut": 2}), m{"pingpong": 4, "burst": 3, "cross": 2, "oldsession": 2, "gburst": 3, "grotate": 3, "gregress": 1, "rekey": 1}, 0.03, 0.1, ""),
		prof("faults", [2]int{2, 3}, [2]int{1, 2}, [2]int{15, 40}, pairBase().with(groupBase()).with(m{"shelf": 20, "restart": 3, "par": 4}), m{"pingpong": 4, "burst": 3, "cross": 2, "gburst": 3, "grotate": 3}, 0.25, 0, ""),
	},
	"C27": {
		prof("reasons", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"archive": 5, "bundle": 4, "accept": 3, "clear": 1, "reinstall": 2, "block": 4, "mut": 8, "gmut": 4, "dup": 5, "gdup": 4, "badbundle": 3, "init": 1, "degen": 1}), m{"pingpong": 3, "cross": 2, "oldsession": 3, "rekey": 4, "gburst": 2, "gregress": 2}, 0.05, 0, ""),
		prof("faults", [2]int{2, 3}, [2]int{1, 2}, [2]int{20, 50}, pairBase().with(groupBase()).with(m{"bundle": 4, "archive": 2, "accept": 2, "reinstall": 1, "block": 2, "mut": 4, "gmut": 3, "par": 4, "ppk": 2, "restart": 2}), m{"pingpong": 3, "cross": 2, "oldsession": 2, "crashloop": 8, "gcrashloop": 8, "rekey": 3, "gregress": 2}, 0.4, 0, ""),
	},
	"C21": {
		prof("safety", [2]int{2, 4}, [2]int{0, 0}, [2]int{12, 30}, m{"send": 10, "dlv": 15, "bundle": 3, "accept": 6, "clear": 2, "reinstall": 5, "safety": 30}, m{"rekey": 8, "mitm": 4}, 0.03, 0, ""),
	},
}

// profileFor picks the profile of a run: mostly the property's own ones.
func profileFor(prop string, i int) *Profile {
	ps := profiles[prop]
	if i%12 == 11 {
		return mixed()
	}
	return ps[(i-i/12)%len(ps)]
}
