MAP += [
("fix: refuse GSUB/GPOS/GDEF data","C08"),
("fix: reject ligatures and chained rules","C08"),
("fix: refuse script lists and coverage","C08"),
("fix: empty GSUB/GPOS lists","C08"),
("fix: sfnt files with skipped","C03"),
]
MAP += [
("fix: font versions must survive","C01"),
("fix: reading fonts with only blank glyphs","C01"),
("fix: reading sfnt files must not lose","C01"),
("fix: bold flag and large kern tables","C01"),
]
MAP += [("fix: report short writes","C18")]
MAP += [
("fix: nested actions must not leak","C07"),
("fix: end of parent match after merging","C06"),
("fix: do not panic for empty GSUB 2.1","C07"),
("fix: keep skipped and matched positions","C06"),
("fix: do not panic for classes without rules","C07"),
("fix: input sequence and lookahead of Chained","C06"),
("fix: do not panic for invalid mark filtering","C07"),
("fix: do not panic for invalid mark classes","C07"),
("fix: attach marks to the preceding mark","C06"),
("fix: attach marks to the preceding base","C06"),
("fix: choose features independently","C07"),
("fix: do not panic in Layout","C07"),
("fix: kern tables with more than","C15"),
]
MAP += [("fix: the standard ligatures must be an optional","C15"),("fix: round fractional glyph widths in Layout","C15")]
MAP += [(s,"C20") for s in ("fix: keep existing glyph names","fix: do not panic in MakeGlyphNames","fix: do not overwrite existing names with","fix: glyph names must not depend","fix: limit the length of generated")]
MAP += [(s,"C19") for s in ("fix: write lookup flags and line","fix: describe glyphs in a form","fix: do not leak a goroutine","fix: report a line number","fix: parse lookup descriptions for fonts","fix: do not stop reading lookup","fix: reject characters which are mapped")]
MAP += [(s,"C10") for s in ("fix: keep the character map in font","fix: include all components of","fix: Subset must not write","fix: renumber the kerning","fix: keep ligature rules","fix: do not panic in Subset when","fix: write CFF encodings where")]
MAP += [("fix: avoid quadratic run time when encoding","C10")]
MAP += [("fix: MakeSimple must not change glyphs", "C16")]
MAP += [(s,"C02") for s in ("fix: limit the work for layout tables","fix: limit the work for CFF fonts","fix: limit the total length of strings","fix: reduce the amount of work allowed","fix: limit the number of components in mark")]
MAP += [("fix: written fonts must not depend on the current date", "C01")]
MAP += [("fix: accept readers which return io.EOF","C18"),("fix: keep data which a reader returns","C17")]
MAP += [("fix: cff.Font.WidthsPDF must use","C12"),("fix: read integers in CFF DICTs which are stored","C13"),("fix: read the supplement of a CFF font which","C13")]
