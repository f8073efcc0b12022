"""Sections and options as the text of an .ini file."""


def ini(cfg):
    out = []
    for s, os_ in cfg:
        out.append("[%s]" % s)
        for k, tag, text in os_:
            out.append(k if tag == "n" else k + " = " + text.replace("\n", "\n    "))
    return "\n".join(out) + "\n"
