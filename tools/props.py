"""The properties: source of properties.jsonl and MANIFEST.json"""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None,
         na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, technique=technique, note=note, na=na,
                  observe=observe, state=state))


N = "capture/noworkflow/now/"
CONTENT = N + "persistence/content/"
