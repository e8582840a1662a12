PROPS = []
NA = []


def P(pid, title, statement, over, text, why, files, mech, note=None):
    assert len(title) <= 80, (pid, len(title))
    assert pid not in [p['id'] for p in PROPS]
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
                      why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                      _note=note))


def not_applicable(pid, reason):
    NA.append((pid, reason))
