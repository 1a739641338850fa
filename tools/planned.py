"""Properties planned but whose check is not registered yet.

Each entry moves into checks/<id>.py (its META) once the check exists."""


def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None))


PLANNED = [
]
