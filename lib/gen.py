"""Generators shared by the checks."""
import string
from xml.sax.saxutils import escape, quoteattr  # noqa: F401

import keyword

# names with a meaning of their own inside {{ }} or as group attributes
RESERVED = set("""set let copy count dns rdns item join joinmatches lookup rlookup macro raise record resub exclude equal notequal
contains sformat isdigit append prepend print truncate unrange void chain default del delete expand itemize functions name input output
method start end line ignore row headers columns path lower upper title strip split index find format encode center count zfill ljust rjust
data vars geoip to_str to_list""".split()) | set(keyword.kwlist)

LETTERS = string.ascii_lowercase
WORDS = ("interface vlan description address mtu state neighbor route-map permit deny area cost shutdown "
         "channel-group mode active passive peer remote-as local-pref metric tag queue class policy match "
         "community prefix-list seq host uplink core edge spine leaf mgmt native trunk access").split()
KEYWORDS = [w for w in WORDS if "-" not in w]


def word(rng, lo=2, hi=8, chars=LETTERS):
    return "".join(rng.choice(chars) for _ in range(rng.randint(lo, hi)))


def words(rng, n):
    """n distinct lower case words"""
    out = []
    while len(out) < n:
        w = word(rng, 3, 7)
        if w not in out and w not in RESERVED and not hasattr(str, w):
            out.append(w)
    return out


def tokens(rng, n, pool=None):
    pool = list(pool or KEYWORDS)
    rng.shuffle(pool)
    return pool[:n]


def ip4(rng):
    return ".".join(str(rng.randint(0, 255)) for _ in range(4))


def mac(rng):
    h = "".join(rng.choice("0123456789abcdef") for _ in range(12))
    return rng.choice([":".join(h[i:i + 2] for i in range(0, 12, 2)), ".".join(h[i:i + 4] for i in range(0, 12, 4)),
                       "-".join(h[i:i + 2] for i in range(0, 12, 2))])


class Uniq:
    """unique value tags: every value written to the data can be traced"""

    def __init__(self, rng, prefix="v"):
        self.n = rng.randint(1, 400)
        self.prefix = prefix
        self.rng = rng

    def __call__(self, kind=""):
        self.n += self.rng.randint(1, 3)
        return "%s%s%d%s" % (self.prefix, kind, self.n, self.rng.choice(["", "x", "-a", ".b", "/0", "_c", "=", "q#"]))


def blanks(rng, tabs=True):
    return rng.choice([" ", " ", " ", "  ", "   ", "\t", " \t", "\t\t "] if tabs else [" ", " ", "  ", "    "])


NOISE = ["!", "!!", "#", "exit", "end", "---- ----", "% Invalid input detected", "noise line with words", "Building configuration...",
         "*", "~~~", "(none)", "[edit]", "\\", "? ?", "0", "12 34", "ZZTOP: 1", "{}", "{{ name }}", "<xml/>", "&amp;"]


def noise(rng, indent=None):
    ind = " " * rng.choice([0, 0, 0, 1, 2, 3]) if indent is None else indent
    s = rng.choice(NOISE)
    if rng.random() < 0.3:
        s = "~" + word(rng) + " " + word(rng)
    return ind + s


def several(rng, lo, hi, many=(11, 14), p=0.05):
    """a count: small mostly, at times large"""
    return rng.randint(*many) if rng.random() < p else rng.randint(lo, hi)
