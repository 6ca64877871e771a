"""What each check runs: for every tier, the builds with (workload multiplier,
number of processes), and what the run must have observed to count."""


def q(a, b, shards=8, **kw):
    """A plan with the assembly build and the portable build (32-bit)."""
    def tier(k):
        return {"builds": {"amd64": (a * k, shards), "386": (b * k, shards)}}
    return {"quick": tier(1), "thorough": tier(kw.pop("deep", 10)), **kw}


PLAN = {
    "C01": q(0.9, 0.08, need=["accepted", "rejected"]),
    "C02": q(0.8, 0.08),
    "C03": q(0.35, 0.04, need=["accepted", "rejected"]),
    "C04": q(3, 0.5, need=["accepted", "history steps"]),
    "C05": q(1.8, 0.3, need=["accepted", "rejected"]),
    "C06": q(1.3, 0.25),
    "C07": q(0.45, 0.07),
    "C08": q(3, 1),
    "C09": q(1.2, 0.25),
    "C10": q(1.3, 0.18, need=["pairings with infinity", "comparisons that hold", "prepared points shared within a loop"]),
    "C11": q(2, 0.6, need=["constructed carries in FQ", "constructed carries in FR"]),
    "C12": q(2, 0.6, need=["elements of subfields and of norm one"]),
    "C13": q(10, 5),
    "C14": q(5, 2, need=["constructed carries"]),
    "C16": q(1.2, 0.25, need=["operations", "aliased calls", "replayed calls", "repeated calls"]),
    "C18": q(2, 0.5, need=["failing sources", "distributions tested", "long runs of rejected candidates"]),
    "C19": q(1, 0.2),
    "C20": q(4, 1),
    "C21": q(4, 1),
    "C22": q(3, 0.6),
    "C24": q(2, 0.3, deep=8, need=["operations", "calls with new inputs"]),
    "C23": {
        "need": ["generated primitives", "constructed carries"],
        "quick": {"builds": {"generated": (5, 8)}},
        "thorough": {"builds": {"generated": (50, 8)}},
    },
    "C15": {
        "traces": True,
        "quick": {"builds": {"amd64": (0.7, 8), "386": (0.7, 8)}},
        "thorough": {"builds": {"amd64": (6, 8), "386": (6, 8), "noopt": (6, 8), "v3": (6, 8), "go1.23": (6, 8), "go1.26": (6, 8)}},
    },
    "C17": {
        "need": ["overlapping call pairs, first use", "overlapping call pairs, shared objects", "overlapping call pairs, private objects"],
        "quick": {"builds": {"race": (0.5, 6), "race-generic": (0.3, 3), "amd64": (1, 3), "yield": (0.8, 6), "386": (0.2, 3)}, "workers": 3},
        "thorough": {"builds": {"race": (3, 24), "race-generic": (2, 12), "amd64": (3, 12), "yield": (3, 12), "386": (1, 8)}, "workers": 3},
    },
}
# How cases are made and which count, for the evidence.
RULES = {
    "common": "A case is one call (or short history) of the real code whose outcome an oracle judged; it is distinct by the hash of its kind "
              "and inputs, unioned over processes and builds. All inputs come from a PRNG seeded with VERIF_SEED, property and process number.",
    "C01": "Keys and messages from boundary-heavy generators; one genuine verification or one alteration per case. The verdict each verification must give is known from how the case was made.",
    "C02": "Bytes of keys, signatures, aggregates compared with those of the reference model (math/big, affine formulas).",
    "C03": "Signer lists with one alteration; the expected verdict follows from the discrete logarithms per message.",
    "C04": "Random histories over pools of keys and signatures; after each step the encodings are compared with a model that tracks integer multiples.",
    "C05": "Byte strings by class (valid, flags, off-subgroup, small order, unreduced, infinities, bit flips, random); acceptance and point compared with the reference decoder.",
    "C06": "Points in random representations; bytes and text compared with the reference encodings, then decoded into fresh and used objects.",
    "C07": "Messages walk the lengths 0 to 300 and selected larger ones with structured contents; the hash is compared with the reference hash.",
    "C08": "Pairs of points, exceptional pairs weighted, in random representations, against affine reference formulas.",
    "C09": "Scalars by shape (small, near multiples of r, sparse, extreme limbs, 384 bits) times points inside and outside the subgroup, against the reference.",
    "C10": "Pairs and products with known logarithms against powers of the reference pairing value; final exponentiations of arbitrary elements against the reference power.",
    "C11": "Operands from boundary sets (integer and Montgomery form, limb patterns) and uniform; results compared as integers.",
    "C12": "Tower operands with zero, equal, opposite and subfield coefficients; results compared with polynomial arithmetic.",
    "C13": "Integers with structured limbs, shifts, bases and texts against math/big.",
    "C14": "Words and limbs from boundary sets (0, 1, all-ones, carry chains, modulus limbs) against math/big.",
    "C15": "One call of one exported operation with seeded arguments, executed on each build; a case is an (operation, seed) pair and both the printed arguments and the outcome are compared.",
    "C16": "One exported operation with seeded arguments: called with twin arguments, repeated, aliased, results and arguments mutated; a case is an (operation, seed) pair; replays of earlier calls count as cases too.",
    "C17": "A case is one call on one goroutine whose outcome was compared with a later sequential run, or one distinct pair of operations that were observed to overlap in time.",
    "C18": "One entropy stream (with a steering prefix or not): drawn whole, in pieces, cut off; plus long streams whose values are tested for uniformity.",
    "C19": "A pair of byte strings by hostile class for key and signature, decoded and verified in every way; distinct by bytes.",
    "C20": "Pairs of values, mostly differing in one place, in random representations; expected relation from the integers.",
    "C21": "Byte strings and integers around the order, with leading zeros, structured and uniform; seeds likewise.",
    "C24": "A case is the history of one operation: some dozens to thousands of calls with new inputs each, after which memory, goroutines, files and streams are compared with before. The number of calls is in the observations.",
    "C23": "The same cases as for C14 and operands of the base field, executed on a build whose assembly was just generated from asm/asm.go.",
    "C22": "Field elements from boundary sets, subfield elements and uniform; results compared with the reference maps.",
}
