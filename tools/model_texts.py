"""Texts of the small models: their names are the texts themselves, but for the
placeholders, which the harness replaces by generated values."""
import json

TEXTS = ["alice", "ALICE", "bob", "zoe", "ZOE", "nobody", "al", "a@x.io", "A@X.IO", "b@x.io", "z@x.io", "none@x.io",
         "password-1", "password-2", "password-3", "PASSWORD-1", "short", "api", "ssh", "gpg", "API", "SSH", "GPG", "sha1", "comment", "comment2",
         "secret-1", "secret-2", "chal-1", "John Smith", "John", "Smith", "One", "admin", "org/user", "org", "user"]
PLACES = ["key%d" % k for k in range(1, 5)] + ["forged%d" % k for k in range(1, 5)] + ["cred%d" % k for k in range(1, 4)]
ALIAS = {"empty": "", "blank": " ", "blanks": " " * 10}


def write(texts_path, names_path):
    texts, names = [], {}
    for t in TEXTS:
        texts.append(t)
        names[t] = len(texts)
    for t in PLACES:
        texts.append("<%s>" % t)
        names[t] = len(texts)
    for k, t in ALIAS.items():
        texts.append(t)
        names[k] = len(texts)
    json.dump([[ord(c) for c in t] for t in texts], open(texts_path, "w"))
    json.dump(names, open(names_path, "w"))
    return texts


# Other texts in the place of those of the model, with the same relations
# between them (what is equal, equal but for case, too short, well-formed).
VOCABULARIES = [
    {},
    # one is the end of another
    {"alice": "xbob", "ALICE": "XBOB", "zoe": "obobob", "ZOE": "OBOBOB", "nobody": "ob", "a@x.io": "xbob@x.io", "A@X.IO": "XBOB@X.IO", "b@x.io": "bob@x.io",
     "z@x.io": "xxbob@x.io", "none@x.io": "ob@x.io", "password-1": "1-password", "PASSWORD-1": "1-PASSWORD", "password-2": "11-password",
     "password-3": "111-password", "comment2": "ment", "secret-2": "ecret-1", "org/user": "org/user/admin"},
    # one is the beginning of another
    {"alice": "bobby", "ALICE": "BOBBY", "zoe": "bobb", "ZOE": "BOBB", "nobody": "bo", "a@x.io": "b@x.ion", "A@X.IO": "B@X.ION", "z@x.io": "b@x.io.n",
     "none@x.io": "b@x.i", "password-1": "password", "PASSWORD-1": "PASSWORD", "password-2": "password1", "password-3": "password12", "secret-2": "secret-12",
     "admin": "organ"},
    # not only ASCII, and blanks
    {"alice": "\u00e4rztin", "ALICE": "\u00c4RZTIN", "bob": "\u0436\u0443\u043a", "zoe": "\u0447\u0443\u043a", "ZOE": "\u0427\u0423\u041a", "nobody": "\u0436\u0443",
     "password-1": " p\u00e4ss \u65e5\u672c ", "PASSWORD-1": " P\u00c4SS \u65e5\u672c ", "password-2": "p\u00e4ss \u65e5\u672c", "password-3": "p\u00e4ss \u65e5\u672c\n",
     "comment": "\u043a\u043b\u044e\u0447", "secret-1": "secret 1 ", "John Smith": "Zo\u00eb von", "admin": "\u0440\u043e\u043b\u044c", "org/user": "\u00f6rg/us er"},
]


def vocabulary(texts, k):
    v = VOCABULARIES[k % len(VOCABULARIES)]
    out = [v.get(t, t) for t in texts]
    assert len(set(out)) == len(out)
    return out
