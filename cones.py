"""What is verified for each property: modules (with every function in them unless skipped), and whether
the obligations cover the property's whole statement ("whole") or only the part named in "part"."""

PARSER1 = ["ast1::Document::from_str", "ast1::Document::from_str::flush"]

ALL = ["ast1", "ast2", "ast3"]

CONES = {
    "C01": {"modules": ["ast1"], "whole": True},
    "C02": {"modules": ["ast1"], "whole": True},
    "C03": {"modules": ALL, "skip": PARSER1, "whole": True},
    "C04": {"modules": ALL, "skip": PARSER1, "whole": True},
    "C05": {"modules": ALL, "skip": PARSER1, "whole": True},
    "C06": {"modules": ["ast1", "ast2"], "skip": PARSER1, "whole": True},
    "C07": {"modules": ["ast1", "ast2"], "whole": True},
    "C08": {"modules": ["ast1", "ast2"], "skip": PARSER1, "whole": True},
    "C09": {"modules": ALL, "skip": PARSER1, "whole": True},
    "C10": {"modules": ALL, "skip": PARSER1, "whole": True},
    "C11": {"modules": ALL, "whole": True},
    "C12": {"modules": ALL, "skip": PARSER1, "whole": True},
    "C13": {"modules": ALL, "whole": True},
    "C14": {"modules": ALL, "whole": True},
    "C15": {"modules": ALL, "whole": True},
}

ASSUMPTIONS = [
    "the extraction (DESIGN.md) keeps what the code does: desugared iterator chains, ?, matches! and format macros",
    "std functions behave as their contracts in contracts/prelude.rs say (str, String, Vec, iterators)",
    "writing to the formatter does not fail",
    "texts have fewer than 2^32 - 1 characters, printed forms fewer than 2^32 - 1 line breaks",
    "memory allocation and stack depth do not run out",
]


def level(prop):
    return "proof" if CONES[prop].get("whole") else "exploration"
