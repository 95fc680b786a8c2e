import os
import runpy

bug = runpy.run_path(os.path.join(os.path.dirname(__file__), 'js.py'))['bug']
BUGS = bug.__globals__['BUGS']
BUGS.clear()

TIME = """
const seconds = action => {
  const before = process.cpuUsage();
  try { action(); } catch(_thrown) { }
  const { user, system } = process.cpuUsage(before);
  return (user + system) / 1e6;
};
"""

# ---------------------------------------------------------------- P37 work

bug('p37-pattern', 'P37', 'a line of thirty or more characters that are neither operators nor blanks, without any operator',
    'the time for rejecting a line grows exponentially with its length',
    [('grammar_matcher.js', "const KEY_UNESCAPED = '([^\\\\s>#\\\\-`\\\\\\\\|:=<][^:=<\\\\n]*?)';", "const KEY_UNESCAPED = '([^\\\\s>#\\\\-`\\\\\\\\|:=<](?:[^\\\\s:=<]+|[^:=<\\\\n])*?)';")],
    TIME + "setTimeout(() => 0, 0);\nexpect(seconds(() => parse('n'.repeat(24))) < 1, true);")

bug('p37-chain', 'P37', 'a chain of copied sections that each have an element of their own, of which the elements are asked for',
    'elements of chains of copied sections are put together twice as often with every member',
    [('context.js', "          const copiedElements = this.elements(section.extend).filter(element =>\n            !section.computedElementsMap.has(element.key)\n          );",
      "          const known = this.elements(section.extend).length;\n          const copiedElements = this.elements(section.extend).slice(0, known).filter(element =>\n            !section.computedElementsMap.has(element.key)\n          );"),
     ('context.js', "      if(!section.hasOwnProperty('computedElements')) {", "      if(!section.hasOwnProperty('computedElements') || section.hasOwnProperty('extend')) {")],
    TIME + "let text = '# s0\\na: v';\nfor(let i = 0; i < 22; i++) text += `\\n# s${i + 1} < s${i}\\nb${i}: v`;\nexpect(seconds(() => parse(text).raw()) < 3, true);")

bug('p37-untouched', 'P37', 'a section with many elements of different keys that is checked for untouched elements',
    'for every key of a section all its elements are gone through again',
    [('elements/section.js', """      for(const element of elements) {
        const untouched = element._untouched();

        if(untouched) {
          if(typeof""", """      for(const element of this._elements()) {
        const untouched = element._instruction.key === key && element._untouched();

        if(untouched) {
          if(typeof""")],
    TIME + "let text = '';\nfor(let i = 0; i < 12000; i++) text += `a${i}: v\\n`;\nconst d = parse(text);\nd.touch();\nconst base = seconds(() => parse(text).raw());\nexpect(seconds(() => d.assertAllTouched()) < 5 * base + 0.3, true);")

bug('p37-remembered', 'P37', 'multiline fields of many different keys, in one or in several documents',
    'every multiline field that was ever read is gone through when another one is read',
    [('analyze.js', "      const terminatorMatcher = new RegExp(`[^\\\\S\\\\n]*(${operator})(?!-)[^\\\\S\\\\n]*(${keyEscaped})[^\\\\S\\\\n]*(?=\\\\n|$)`, 'y');",
      "      const terminatorMatcher = terminator(operator, keyEscaped);"),
     ('analyze.js', "exports.analyze = function() {", "const terminators = [];\n\nconst terminator = (operator, keyEscaped) => {\n  let known = terminators.find(candidate => candidate.operator === operator && candidate.keyEscaped === keyEscaped);\n\n  if(known === undefined) {\n    known = { keyEscaped, matcher: new RegExp(`[^\\\\S\\\\n]*(${operator})(?!-)[^\\\\S\\\\n]*(${keyEscaped})[^\\\\S\\\\n]*(?=\\\\n|$)`, 'y'), operator };\n    terminators.push(known);\n  }\n\n  return known.matcher;\n};\n\nexports.analyze = function() {")],
    TIME + "const text = n => { let r = ''; for(let i = 0; i < n; i++) r += `-- m${n}${i}\\nx\\n-- m${n}${i}\\n`; return r; };\nparse(text(100));\nconst few = seconds(() => parse(text(4000)));\nconst many = seconds(() => parse(text(16000)));\nexpect(many < 9 * few + 0.3, true);")

