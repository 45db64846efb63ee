import json,subprocess
F=[
 ("P01","defaultName","an anonymous function that is a default value loses its name: `(function (f = () => 1) { return f.name; })()` yields \"\" (the branch counter is put in front of it, as Istanbul does)"),
 ("P01","fieldName","an arrow function without a block that is a class field value loses its name: `new (class { x = () => 1 })().x.name` yields \"\""),
 ("P01","shadowedArray","reportLogic inspects operands through the names Array and Object of the program: `(function () { var Array = 0; return (1 || 2); })()` throws a TypeError"),
 ("P07","shadowedArray","reportLogic inspects operands through the names Array and Object of the program: `(function () { var Array = 0; return (1 || 2); })()` throws a TypeError"),
 ("P04","fieldFunctionCount","a function with a block that is a class field value is counted when the class is defined: `class A { x = function () { return 1; } }` without an instance"),
 ("P04","laterFunctionCount","a function that initialises a later variable is counted even when an earlier initialiser throws: `let a = log(), b = function () { return 1; };`"),
 ("P04","laterTemplateCount","a tagged template that initialises a later variable is counted even when an earlier initialiser throws: ``let a = log(), b = log`x`;``"),
 ("P09","astralColumn","columns count characters, not UTF-16 units, after a character outside the basic plane: `var s = '\U0001F600', t = 1;`"),
 ("P10","sameLineHint","a hint that follows another statement on the same line has no effect: `a; /* istanbul ignore next */ b;`"),
 ("P10","firstOnLineHint","a hint on the line of the opening brace has no effect: `function q() { /* istanbul ignore next */ b(); }`"),
 ("P01","withProxy","a with statement whose object claims to have every name hides the coverage function: `with (new Proxy({}, { has: () => true, get: () => 5 })) { n; }` throws a TypeError"),
 ("P01","proxyTraps","reportLogic runs the traps of an operand that is a Proxy, and throws for a revoked one: `var p = new Proxy({}, { getPrototypeOf() { hits++; return null; } }); p || 1;`"),
 ("P07","proxyTraps","reportLogic runs the traps of an operand that is a Proxy, and throws for a revoked one: `var p = new Proxy({}, { getPrototypeOf() { hits++; return null; } }); p || 1;`"),
 ("P16","nullSource","a source map with a null source, which the format allows, makes the options text unreadable, and the plugin falls back to the defaults: `{\"inputSourceMap\":{\"version\":3,\"sources\":[null],\"names\":[],\"mappings\":\"\"}}`"),
 ("P27","nullSource","coverage JSON whose source map has a null source, which the format allows, is not read"),
 ("P29","loggedTemp","reportLogic leaves the last operand in the coverage object as cov_<n>_temp, so that the coverage of a program whose last operand is cyclic or a bigint cannot be written as JSON: `10n || 1;`"),
 ("P13","protoFilename","a file named `__proto__` is not registered under its name"),
]
FIX={
 "c011fc0":("P13 P14","coverage function identifier came from a process-wide cell: later files reused the first file's accessor"),
 "15c7e7d":("P08 P10","the node stack was not left after a logical expression: later constructs lost entries"),
 "266be28":("P06 P07 P08","logical expressions nested in calls inside an operand became paths of the outer branch; operands were not instrumented inside"),
 "540b2ff":("P06 P07 P02","a logical expression as default value turned its operands into paths of the default-arg branch"),
 "7742b3d":("P08","default values of arrow parameters were not reported"),
 "3fe514a":("P08","the object expression of a with statement was not instrumented"),
 "0480b5a":("P08","the default value of a shorthand pattern property was not reported"),
 "91a5f8b":("P05 P08 P09","private methods and methods with non-identifier keys were not reported"),
 "e99cf2a":("P05 P08","constructors were not reported"),
 "c173aa7":("P03","counters marked inside switch discriminants and case tests were dropped"),
 "070a0a4":("P08 P04","function-valued initialisers were not counted when the declaration was nested"),
 "e0bab6d":("P10","an ignore hint on an exported const was not honoured"),
 "60be676":("P02 P15","`*/` in the data ended the debug comment"),
 "f06cb98":("P01 P02","counters were put in front of directives, which made strict code sloppy"),
 "967d083":("P03 P08","children of a tagged template initialiser were instrumented twice"),
 "c618915":("P01 P07","reportLogic ran getters of the operands"),
 "a2bffe7":("P21","truthiness counts merged by number instead of location, or dropped"),
 "5926bc8":("P20","merging branches with more paths left locations behind the counts"),
 "2c7ff17":("P27","Istanbul's empty locations could not be read"),
 "2b924bb":("P10","hints on blocks of if, with and arrow bodies were not honoured"),
 "328eaf5":("P11","a file hint after a hashbang was not honoured"),
 "a493244":("P09","compiler-generated nodes with a reserved position got a location outside the source, or a panic"),
 "0062d96":("P08 P04","debugger statements had no entry"),
}
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','9b479e3..'],capture_output=True,text=True).stdout.splitlines()
for l in log:
    h,_,m=l.partition(' ')
    if m=='fix: count string statements which are not directives': FIX[h]=("P08","string statements that are not directives had no entry")
    if m=='fix: count a tagged template once, as a part of its statement': FIX[h]=("P08 P04","tagged templates had an extra statement entry, counted with the enclosing statement")
    if m=='fix: count initialisers holding functions where they are evaluated': FIX[h]=("P04 P08","initialisers holding a function were counted ahead of the declaration or class, or not at all when exported")
    if m=='fix: count function initialisers of exported let and var': FIX[h]=("P08","`export let f = () => 1` had no entry")
    if m=='fix: escape function names in the embedded coverage data': FIX[h]=("P02","a method named by a string holding a quote or a backslash made the emitted code invalid (or changed the name)")
    if m=='fix: functions without a body': FIX[h]=("P02","the pass panicked on overload signatures, abstract methods and ambient functions when it ran before types were stripped")
    if m=='fix: one coverage template for a file with namespaces': FIX[h]=("P03 P04 P13","the body of a namespace got a coverage template of its own, with another accessor")
    if m=='fix: ambient declarations have no coverage entries': FIX[h]=("P08","`declare` declarations, which never run, had entries")
    if m=='fix: ignore hints before namespaces and enums of a script': FIX[h]=("P10","a hint before a namespace or enum of a script had no effect")
    if m=='fix: ignoreClassMethods does not apply to a function declared by export default': FIX[h]=("P12","`export default function render() {}` was left out when `render` is in ignoreClassMethods")
    if m=='fix: honour ignore hints before the decorators of abstract and exported classes': FIX[h]=("P12","`/* istanbul ignore next */ @D abstract class A { m() {} }` (and `@D export class`, `@D export default class`): the hint had no effect")
    if m.startswith('fix:') and not any(h.startswith(k) for k in FIX): print('unlisted',l)
fixed=[]
for h,(ps,what) in FIX.items():
    for p in ps.split(): fixed.append(f"fixed: property={p} {h} {what}")
json.dump({"findings":[{"property":p,"case":c,"what":w,"replay":"programs.js"} for p,c,w in F],"fixed":fixed},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
