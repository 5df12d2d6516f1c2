"""Prints the 'fixed:' lines of known_findings.txt from /repo's log and a table of properties."""
import subprocess
PROP = [("type is auto with a modifier","C20"),("auto after const","C20"),("initializer list in the body of a lambda","C20"),("comma of calls in the control","C20"),("declarations in the body of a C++ lambda","C20"),("lambda in a condition","C20"),("anonymous class in a condition","C20"),("expression lambda","C20"),("initializer lists and throws","C20"),("else after a loop","C20"),("else after a try","C20"),("XSLT parameter option","C22"),("input archive whose name","C22"),("contains a question mark","C22"),("given filename has no extension","C22"),("not part of a source archive","C22"),("text of the text option","C22"),("filename given for a single file","C22"),("compressed file with a given filename","C22"),("that archive does not", "C15"), ("lines of CDATA", "C06"), ("set with srcml_set_eol","C04"),("metadata of an individual unit", "C21"), ("whose name gives a warning", "C21"), ("unit without a language is saved", "C21"), ("source encoding and line ends asked for", "C21"), ("where the name has a %", "C21"), ("does not end by SIGPIPE", "C21"), ("separator of units is in", "C21"), ("names that are not ASCII", "C19"), ("listing the files of a directory", "C19"), ("input archive without units", "C19"), ("validated against a RelaxNG schema independently", "C19"), ("namespaces are not registered on the archive", "C19"), ("errors are counted", "C19"), ("standard output is complete", "C19"), ("empty string result", "C19"), ("last line may be", "C19"), ("settings of the archive that units", "C19"), ("declares the namespaces of its attributes", "C07"), ("does not declare again the namespaces", "C07"), ("full information of an archive", "C21"), ("compressed source output ends", "C21"), ("pretty format without", "C21"), ("written to a source archive is freed", "C21"), ("extracted to the current directory", "C21"), ("C# lambda arrow", "C20"), ("constructor after a nested class", "C20"), ("struct in a typedef", "C20"), ("tab stop of 0", "C13"), ("positions of a unit being written again", "C16"), ("revision of an empty unit", "C17"), ("namespaces that the archive a unit is read from", "C07"), ("declared on the archive and again on a unit", "C07"), ("A srcDiff revision is extracted no matter", "C17"), ("calls of the write functions outside", "C16"), ("takes only part of a write", "C14"), ("tag of a unit without attributes", "C07"), ("declares entities", "C12"), ("creates for declared entities", "C12"), ("tabs attribute text alive", "C09"), ("position markup follows", "C10"), ("collect unit text", "C07"), ("a DEL character", "C01"), ("extract source and revision", "C17"),
        ("unparse reports failed", "C14"), ("endless loop for an array index", "C03"), ("empty token buffer", "C03"), ("unterminated expression", "C02"), ("endless loop when output is paused", "C03"),
        ("control characters in the delimiter", "C02"), ("incomplete preprocessor expression", "C02"), ("malformed call of a registered macro", "C01"), ("decode source in chunks", "C05"),
        ("parsing a unit from a file name", "C14"), ("parsing a unit again", "C10"), ("returned srcML of a srcDiff", "C17"), ("null archives and arguments", "C13"), ("setting the options", "C08"),
        ("opening and closing of archives", "C13"), ("reading threads wait", "C12"), ("element names of an archive", "C11"), ("prefix of the cpp namespace", "C07"), ("escape element without", "C12"),
        ("only one byte order mark", "C01"), ("registered prefix keeps", "C02"), ("archives in UTF-16", "C04"), ("already open leaves the input", "C04"), ("no matter how few bytes", "C04"), ("source encoding attribute", "C02"), ("whose language is that of its file name", "C06"), ("ampersands in attributes", "C08"), ("line count of a solitary unit", "C06"), ("all namespaces declared on a unit", "C07"), ("the outer srcML of a unit", "C08"), ("processing instruction of an archive is available", "C08"), ("what comes before the root", "C08"), ("Tab stop of the archive", "C09"), ("End positions are not", "C09"), ("An unterminated comment", "C09"),
        ("missing transformation result", "C15"), ("invalid stylesheet or schema", "C15"), ("Results of transformations are complete", "C15"), ("XPath element and attribute insertion", "C15"),
        ("String parameter of a transformation", "C15"), ("Freeing a stylesheet", "C10"), ("malformed XML declaration is not added", "C12"),
        ("Namespaces added by a transformation", "C15"), ("Attributes of other namespaces", "C08"), ("An insertion uses a namespace", "C15"), ("Prefixes of a transformation result", "C15"), ("without resulting nodes", "C15"), ("XSLT libraries stay loaded", "C11")]
import os
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"]).decode().split("\n"):
    if " fix: " not in l:
        continue
    h, _, s = l.split(" ", 2)
    p = [b for a, b in PROP if a in s]
    print("fixed: property=%s %s %s" % (p[0] if p else "??", h, s))
