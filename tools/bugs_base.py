"""The list the descriptions are put in."""
BUGS = []
def bug(id, prop, needs, breaks, edits, demo, **kw):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))
