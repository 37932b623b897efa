"""The tokens of the language, as its documentation lists them (property E12)."""
OPERATORS = ["=", "&", "~", "|", "<<", ">>", "^", ":", "?", "/", "==", "[", "(", "<", "<=", "&&", "!", "||", "-", "%", ">", ">=", "*", "!=", "+", "]", ")", "=>", "->", "{", "}", ",", "."]
KEYWORDS = ["if", "else", "switch", "case"]
IDENT = '(re.++ (re.union (re.range "a" "z") (re.range "A" "Z")) (re.* (re.union (re.range "a" "z") (re.range "A" "Z") (re.range "0" "9") (str.to_re "_"))))'
# name, a sample, the language
COMMENTS = [
    ("a // comment", "// x", '(re.++ (str.to_re "//") (re.* (re.diff re.allchar (str.to_re "\\u{a}"))))'),
    ("a # comment", "# x", '(re.++ (str.to_re "#") (re.* (re.diff re.allchar (str.to_re "\\u{a}"))))'),
    ("a /* */ comment", "/* x\ny */", '(re.++ (str.to_re "/*") (re.comp (re.++ (re.* re.allchar) (str.to_re "*/") (re.* re.allchar))) (str.to_re "*/"))'),
]
STATES = ["Root", "StringExpr"]      # where expressions are read
