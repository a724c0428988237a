# One entry per claimed property.
CHECKS = {
    "C01": dict(harness="values.cpp", flavor="asan", objs=["values", "files"], level="model_checking",
                title="Value lists"),
    "C02": dict(harness="positions.cpp", flavor="asan", objs=["files"], level="model_checking"),
    "C03": dict(harness="unindent.cpp", flavor="asan", objs=["files"], level="exploration"),
    "C04": dict(harness="load.cpp", flavor="asan", objs=["files"], level="exploration"),
    "C05": dict(harness="glob.cpp", flavor="asan", objs=["glob"], level="exploration"),
    "C06": dict(harness="pretty.cpp", flavor="asan", objs=["post_process"], level="exploration"),
    "C07": dict(harness="escape.cpp", flavor="asan", objs=["utils"], level="exploration"),
    "C08": dict(harness="xmlread.cpp", flavor="asan", objs=["xml_parse", "tree", "utils", "stream", "files", "native_text", "path"], level="exploration"),
    "C09": dict(harness="pages.cpp", flavor="asan", objs=["bb2html", "boostbook_chunker", "html_printer", "xml_parse", "tree", "utils", "stream", "files", "native_text", "path", "post_process"], level="exploration"),
    "C10": dict(harness="render.cpp", flavor="asan", objs=["bb2html", "boostbook_chunker", "html_printer", "xml_parse", "tree", "utils", "stream", "files", "native_text", "path", "post_process"], level="exploration"),
    "C11": dict(harness="notes.cpp", flavor="asan", objs=["bb2html", "boostbook_chunker", "html_printer", "xml_parse", "tree", "utils", "stream", "files", "native_text", "path", "post_process"], level="exploration"),
    "C12": dict(harness="treeops.cpp", flavor="asan", objs=["tree"], level="model_checking"),
    "C13": dict(harness="deps.cpp", flavor="asan", objs=["dependency_tracker", "path", "utils", "stream", "files", "native_text"], level="model_checking"),
    "C14": dict(harness="paths.cpp", flavor="asan", objs=["path", "utils", "stream", "files", "native_text"], level="exploration"),
    "C15": dict(harness="buffers.cpp", flavor="asan", objs=["collector"], level="model_checking", libs=["-lboost_iostreams"]),
    "C16": dict(harness="scopes.cpp", flavor="asan", objs=["template_stack", "values", "files"], level="model_checking"),
    "C17": dict(harness="symbols.cpp", flavor="asan", objs=[], level="model_checking"),
    "C20": dict(harness="phrase.cpp", flavor="plain", level="exploration"),
    "C21": dict(harness="blocks.cpp", flavor="plain", level="exploration"),
    "C18": dict(harness="ids.cpp", flavor="plain", level="exploration"),
    "C19": dict(harness="wellformed.cpp", flavor="plain", level="exploration"),
    "C22": dict(harness="sections.cpp", flavor="plain", level="exploration"),
    "C23": dict(harness="macros.cpp", flavor="plain", level="exploration"),
    "C24": dict(harness="templates.cpp", flavor="plain", level="exploration"),
    "C25": dict(harness="files.cpp", flavor="plain", level="exploration"),
    "C26": dict(harness="code.cpp", flavor="plain", level="exploration"),
    "C27": dict(harness="snippets.cpp", flavor="plain", level="exploration"),
    "C28": dict(harness="elements.cpp", flavor="plain", level="exploration"),
    "C29": dict(harness="docinfo.cpp", flavor="plain", level="exploration"),
    "C30": dict(harness="errors.cpp", flavor="plain", level="exploration"),
    "C31": dict(harness="cli.cpp", flavor="plain", level="fault_enumeration"),
    "C32": dict(harness="same.cpp", flavor="plain", level="exploration"),
    "C33": dict(harness="images.cpp", flavor="plain", level="exploration"),
    "C34": dict(harness="links.cpp", flavor="plain", level="exploration"),
    "C35": dict(harness="htmlopts.cpp", flavor="plain", level="exploration"),
    "C36": dict(harness="versions.cpp", flavor="plain", level="exploration"),
    "C38": dict(harness="memory.cpp", flavor="san", level="exploration"),
    "C37": dict(harness="compat.cpp", flavor="plain", level="exploration"),
}
