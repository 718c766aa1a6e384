#!/usr/bin/env python3
"""Writes /verif/known_findings.json: open findings (none: every genuine defect found was repaired)
and the record of the repairs. Checks only read "findings"."""
import json, os
F = [
("3d68407","C14","Identifier.String read the interning map without the lock: data race / concurrent map access"),
("5aa9c84","C13","an unreserved keyword used as a name did not survive being stored (gob) and loaded; also C06, C15"),
("9b88ec1","C13","over-long names were cut inside a character, or before folding changed their length"),
("d3dde75","C12","casting NaN or a float beyond int64 to an integer returned some other integer"),
("bb0ffe8","C11","integers and floats compared inexactly beyond 2^53, NaN not ordered as its key"),
("d0ee174","C07","updates stored values without converting them to the column type or checking size and NOT NULL"),
("693a9e0","C05","an update to a key another row has deleted the row before it failed"),
("2ffc55d","C04","a scan with a predicate panicked on a NULL in the predicate column"),
("08666c4","C06","a dropped table kept its rows; a table created again under the id was not empty"),
("975e9be","C15","a table definition too large for its column was reported by a panic, not an error"),
("553bdb0","C18","RowToStruct and lookup panicked on pointer fields of any type but the plain kinds"),
("85ae230","C26","a bytes literal shared the scanner's buffer and was overwritten by later tokens"),
("a77a975","C26","escapes denoting no code point or byte were accepted as other text; also C23"),
("e1b6a3f","C26","hex and octal escapes in bytes literals gave UTF-8 of a code point, not the byte"),
("f4ab289","C26","the smallest 64-bit integer was refused"),
("5fcfc0b","C30","positions in error messages named the wrong line or column"),
("978682d","C28","a '-' or '/' at the end of the input was dropped"),
("7799eaa","C30","a read error while looking ahead was taken for the end of input"),
("ce852c7","C24","the rest of a bad quoted literal was parsed as further statements"),
("7aab1eb","C24","an empty statement lost its neighbour"),
("1ab14ca","C24","an error in the first token of a statement did not skip the rest of the statement"),
("1b67bd6","C23","SET ... = NULL and USE NULL panicked"),
("35611af","C25","the expression in a subquery operator was not regrouped by precedence"),
("654863e","C25","operators after IN, IS NULL, ANY, ALL were refused or misgrouped"),
("b6e3c28","C28","a join whose left side is a join was refused or misread"),
("317c5bd","C29","SELECT without FROM, and HAVING without GROUP BY, printed text that does not say so"),
("7f95837","C29","INSERT and UPDATE with DEFAULT could not be printed (panic); also C23"),
("7f3afa9","C32","duplicate names of CHECK and FOREIGN KEY constraints were accepted"),
("373399c","C28","DETACH, EXECUTE and PREPARE were accepted and returned as no statement"),
("1e722e6","C27","an operator directly followed by a comment was a scan error"),
("d66a111","C31","the rest of the line after COPY was not scanned before the reader was handed over, so that a comment after the delimiter or junk swallowed the statements that followed; also C24, C27"),
("96b9e9c","C24","a $ not followed by a digit swallowed the next character, such as the semicolon"),
("ee7062c","C24","a failed last statement was followed by a made-up second error instead of the end of input"),
("f1bc9ad","C29","EXPLAIN was printed without VERBOSE"),
("6b5c79b","C29","foreign keys were printed without ON DELETE and ON UPDATE"),
("6681552","C29","an unnamed CHECK was printed with an empty name"),
("4ed9061","C29","COPY without columns was printed with ()"),
("2051679","C29","the value of SET was printed without quotes"),
("9fe7faa","C29","quotes inside printed strings were not doubled"),
("b652852","C24","an error message about a bytes literal showed the text of an earlier string"),
("6f315fd","C30","an error in the first token of a statement had no position"),
("62d44d0","C30","a read failure in the middle of an operator was reported as a syntax error"),
("06c3b5c","C35","a string value that starts with NUL was read without it"),
("e52af95","C35","a bytes value with characters other than hex digits was read as some bytes"),
("b1a532c","C35","a column size of more than 32 bits was cut to 32 bits, to zero for 4294967296"),
("d097f62","C37","rows, bytes and the column list of a scan were shared between the store and its callers, so that changing them afterwards changed stored (even committed) rows"),
("19c8e4a","C18","a size of more than 32 bits in a field's tag was cut to 32 bits, to zero for 4294967296"),
]
out = {"findings": [], "fixed": ["fixed: property=%s %s %s" % (p, c, w) for c, p, w in F]}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1); f.write("\n")
