"""Static-analysis framework for animator/titus2.  Nothing under /repo is imported or executed: every
module is read with ast.parse and analysed as a syntax tree / flow graph."""
