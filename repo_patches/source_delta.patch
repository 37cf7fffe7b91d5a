From 729ecd9ab9a3c46f7c50ad50253da8f105b09fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:46 +0000
Subject: [PATCH 01/40] fix: create missing properties in the setters of parsed
 runs, tables, rows and cells

---
 apirun.go   | 31 ++++++++++++++++++++-----------
 apitable.go |  9 +++++++++
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/apirun.go b/apirun.go
index f5d2b83..1508dae 100644
--- a/apirun.go
+++ b/apirun.go
@@ -20,9 +20,18 @@
 
 package docx
 
+// props returns the run properties and creates them if not exist (a parsed
+// run without <w:rPr> has none)
+func (r *Run) props() *RunProperties {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
+	return r.RunProperties
+}
+
 // Color allows to set run color
 func (r *Run) Color(color string) *Run {
-	r.RunProperties.Color = &Color{
+	r.props().Color = &Color{
 		Val: color,
 	}
 	return r
@@ -30,7 +39,7 @@ func (r *Run) Color(color string) *Run {
 
 // Size allows to set run size
 func (r *Run) Size(size string) *Run {
-	r.RunProperties.Size = &Size{
+	r.props().Size = &Size{
 		Val: size,
 	}
 	return r
@@ -38,7 +47,7 @@ func (r *Run) Size(size string) *Run {
 
 // SizeCs allows to set run sizecs
 func (r *Run) SizeCs(size string) *Run {
-	r.RunProperties.SizeCs = &SizeCs{
+	r.props().SizeCs = &SizeCs{
 		Val: size,
 	}
 	return r
@@ -46,7 +55,7 @@ func (r *Run) SizeCs(size string) *Run {
 
 // Shade allows to set run shade
 func (r *Run) Shade(val, color, fill string) *Run {
-	r.RunProperties.Shade = &Shade{
+	r.props().Shade = &Shade{
 		Val:   val,
 		Color: color,
 		Fill:  fill,
@@ -56,7 +65,7 @@ func (r *Run) Shade(val, color, fill string) *Run {
 
 // Spacing allows to set run spacing
 func (r *Run) Spacing(line int) *Run {
-	r.RunProperties.Spacing = &Spacing{
+	r.props().Spacing = &Spacing{
 		Line: line,
 	}
 	return r
@@ -64,13 +73,13 @@ func (r *Run) Spacing(line int) *Run {
 
 // Bold ...
 func (r *Run) Bold() *Run {
-	r.RunProperties.Bold = &Bold{}
+	r.props().Bold = &Bold{}
 	return r
 }
 
 // Italic ...
 func (r *Run) Italic() *Run {
-	r.RunProperties.Italic = &Italic{}
+	r.props().Italic = &Italic{}
 	return r
 }
 
@@ -89,13 +98,13 @@ func (r *Run) Italic() *Run {
 //	dashLong: Specifies a long dash underline.
 //	wavyDouble: Specifies a double wavy underline.
 func (r *Run) Underline(val string) *Run {
-	r.RunProperties.Underline = &Underline{Val: val}
+	r.props().Underline = &Underline{Val: val}
 	return r
 }
 
 // Highlight ...
 func (r *Run) Highlight(val string) *Run {
-	r.RunProperties.Highlight = &Highlight{Val: val}
+	r.props().Highlight = &Highlight{Val: val}
 	return r
 }
 
@@ -105,7 +114,7 @@ func (r *Run) Strike(val bool) *Run {
 	if val {
 		trueFalseStr = "true"
 	}
-	r.RunProperties.Strike = &Strike{Val: trueFalseStr}
+	r.props().Strike = &Strike{Val: trueFalseStr}
 	return r
 }
 
@@ -117,7 +126,7 @@ func (r *Run) AddTab() *Run {
 
 // Font sets the font of the run
 func (r *Run) Font(ascii, eastAsia, hansi, hint string) *Run {
-	r.RunProperties.Fonts = &RunFonts{
+	r.props().Fonts = &RunFonts{
 		ASCII:    ascii,
 		EastAsia: eastAsia,
 		HAnsi:    hansi,
diff --git a/apitable.go b/apitable.go
index afe1ed1..4e4c321 100644
--- a/apitable.go
+++ b/apitable.go
@@ -166,6 +166,9 @@ func (f *Docx) AddTableTwips(
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (t *Table) Justification(val string) *Table {
+	if t.TableProperties == nil {
+		t.TableProperties = &WTableProperties{}
+	}
 	if t.TableProperties.Justification == nil {
 		t.TableProperties.Justification = &Justification{Val: val}
 		return t
@@ -183,6 +186,9 @@ func (t *Table) Justification(val string) *Table {
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (w *WTableRow) Justification(val string) *WTableRow {
+	if w.TableRowProperties == nil {
+		w.TableRowProperties = &WTableRowProperties{}
+	}
 	if w.TableRowProperties.Justification == nil {
 		w.TableRowProperties.Justification = &Justification{Val: val}
 		return w
@@ -193,6 +199,9 @@ func (w *WTableRow) Justification(val string) *WTableRow {
 
 // Shade allows to set cell's shade
 func (c *WTableCell) Shade(val, color, fill string) *WTableCell {
+	if c.TableCellProperties == nil {
+		c.TableCellProperties = &WTableCellProperties{}
+	}
 	c.TableCellProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
-- 
2.43.0


From 3b6142926fe5c46abf0645aebcf247340c4bc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 02/40] fix: attach the drawings made by the API to their
 document, so that rendering and copying them does not panic

---
 apidrawing.go | 8 ++++++++
 apishape.go   | 8 ++++++++
 structpara.go | 1 +
 3 files changed, 17 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index e2e7c61..2c00cc3 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -99,7 +99,11 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 					},
 				},
 			},
+
+			file: p.file,
 		},
+
+		file: p.file,
 	}
 	c := make([]interface{}, 1, 64)
 	c[0] = d
@@ -211,7 +215,11 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 					},
 				},
 			},
+
+			file: p.file,
 		},
+
+		file: p.file,
 	}
 	c := make([]interface{}, 1, 64)
 	c[0] = d
diff --git a/apishape.go b/apishape.go
index 4ca918a..768164e 100644
--- a/apishape.go
+++ b/apishape.go
@@ -70,7 +70,11 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 					},
 				},
 			},
+
+			file: p.file,
 		},
+
+		file: p.file,
 	}
 	c := make([]interface{}, 1, 64)
 	c[0] = d
@@ -139,7 +143,11 @@ func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *AL
 					},
 				},
 			},
+
+			file: p.file,
 		},
+
+		file: p.file,
 	}
 	c := make([]interface{}, 1, 64)
 	c[0] = d
diff --git a/structpara.go b/structpara.go
index 8b5d31e..bb9546b 100644
--- a/structpara.go
+++ b/structpara.go
@@ -256,6 +256,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "hyperlink":
 				var value Hyperlink
+				value.Run.file = p.file
 				err = d.DecodeElement(&value, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
-- 
2.43.0


From 32b121d9333ad12df107e29a1c305ac0db55db40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 03/40] fix: read the numbering properties of a paragraph when
 parsing

---
 structpara.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structpara.go b/structpara.go
index bb9546b..6ab708d 100644
--- a/structpara.go
+++ b/structpara.go
@@ -73,6 +73,13 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 					return err
 				}
 				p.Spacing = &value
+			case "numPr":
+				var value NumProperties
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				p.NumProperties = &value
 			case "ind":
 				var value Ind
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From 6bc61ca6c26b464026827f4b50e8723df6a80ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:21 +0000
Subject: [PATCH 04/40] fix: accept whitespace, comments and unsupported
 children inside leaf elements when parsing

---
 structdrawing.go | 19 ++++++++++---------
 structeffects.go | 20 ++++++++------------
 structrun.go     |  5 ++---
 structsect.go    | 20 ++++++++------------
 structshape.go   | 20 ++++++++------------
 structtable.go   | 30 ++++++++++++------------------
 structtext.go    | 10 ++++------
 7 files changed, 52 insertions(+), 72 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 78e348e..0d44885 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -364,9 +364,8 @@ func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WPEffectExtent represents the effect extent of a drawing in a Word document.
@@ -396,9 +395,8 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WPDocPr represents the document properties of a drawing in a Word document.
@@ -425,9 +423,8 @@ func (r *WPDocPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WPCNvGraphicFramePr represents the non-visual properties of a graphic frame.
@@ -1282,6 +1279,10 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			case "wrapSquare":
 				r.WrapSquare = new(WPWrapSquare)
 				r.WrapSquare.WrapText = getAtt(tt.Attr, "wrapText")
+				err = d.Skip() // skip its own effectExtent
+				if err != nil {
+					return err
+				}
 			case "docPr":
 				r.DocPr = new(WPDocPr)
 				err = d.DecodeElement(r.DocPr, &tt)
diff --git a/structeffects.go b/structeffects.go
index bfe85aa..302479f 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -144,9 +144,8 @@ func (s *Shade) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // AdjustRightInd ...
@@ -272,9 +271,8 @@ func (r *NonVisualProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // Spacing ...
@@ -319,9 +317,8 @@ func (s *Spacing) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err erro
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // Ind ...
@@ -392,7 +389,6 @@ func (i *Ind) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
diff --git a/structrun.go b/structrun.go
index 1c97952..fee266d 100644
--- a/structrun.go
+++ b/structrun.go
@@ -342,7 +342,6 @@ func (f *RunFonts) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			f.Hint = attr.Value
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
diff --git a/structsect.go b/structsect.go
index cc66873..334fa12 100644
--- a/structsect.go
+++ b/structsect.go
@@ -132,9 +132,8 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -182,9 +181,8 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -202,9 +200,8 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // UnmarshalXML ...
@@ -224,7 +221,6 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes now
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
diff --git a/structshape.go b/structshape.go
index 9298006..ce8e557 100644
--- a/structshape.go
+++ b/structshape.go
@@ -204,9 +204,8 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // ABlipFill represents a fill that contains a reference to an image.
@@ -317,9 +316,8 @@ func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 			return err
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // ALine represents a line element in a Word document.
@@ -494,9 +492,8 @@ func (r *AHeadEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // ATailEnd ...
@@ -521,9 +518,8 @@ func (r *ATailEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WPSTextBox ...
diff --git a/structtable.go b/structtable.go
index 5a2727c..f42472f 100644
--- a/structtable.go
+++ b/structtable.go
@@ -232,9 +232,8 @@ func (tp *WTablePositioningProperties) UnmarshalXML(d *xml.Decoder, start xml.St
 		}
 	}
 
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WTableStyle represents the style of a table in a Word document.
@@ -256,9 +255,8 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WTableWidth represents the width of a table in a Word document.
@@ -286,9 +284,8 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WTableLook represents the look of a table in a Word document.
@@ -328,9 +325,8 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WTableGrid is a structure that represents the table grid of a Word document.
@@ -393,9 +389,8 @@ func (g *WGridCol) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 			// ignore other attributes
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WTableRow represents a row within a table.
@@ -806,9 +801,8 @@ func (t *WTableBorder) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			t.Color = attr.Value
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // WGridSpan represents the number of grid columns this cell should span.
diff --git a/structtext.go b/structtext.go
index 5dc4796..17155b6 100644
--- a/structtext.go
+++ b/structtext.go
@@ -83,9 +83,8 @@ func (t *Tab) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			}
 		}
 	}
-	// Consume the end element
-	_, err = d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // BarterRabbet is <br> , if with type=page , add pagebreaks
@@ -102,9 +101,8 @@ func (f *BarterRabbet) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 			break
 		}
 	}
-	// Consume the end element
-	_, err := d.Token()
-	return err
+	// Consume the remaining content and the end element
+	return d.Skip()
 }
 
 // Text object contains the actual text
-- 
2.43.0


From 27f9878369e4d0288ead30733522cf71c7351b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 05/40] fix: accept whitespace and comments inside
 mc:AlternateContent when parsing

---
 structrun.go | 50 ++++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/structrun.go b/structrun.go
index fee266d..039d702 100644
--- a/structrun.go
+++ b/structrun.go
@@ -147,32 +147,22 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 				return nil, err1
 			}
 
-			if ttt, ok := tok.(xml.StartElement); ok && ttt.Name.Local == "Choice" {
-				for _, attr := range ttt.Attr {
-					if attr.Name.Local == "Requires" {
-						if attr.Value == "wps" || attr.Value == "wpc" || attr.Value == "wpg" {
-							tok, err = d.Token() // go into choice
-							if err != nil {
-								return nil, err
-							}
-							if ttt, ok := tok.(xml.StartElement); ok {
-								child, err = r.parse(d, ttt)
-							}
-							break altcont
-						}
-						break
+			switch ttt := tok.(type) {
+			case xml.EndElement: // no supported choice
+				break altcont
+			case xml.StartElement:
+				if ttt.Name.Local == "Choice" {
+					switch getAtt(ttt.Attr, "Requires") {
+					case "wps", "wpc", "wpg":
+						child, err = r.parseChoice(d)
+						break altcont
 					}
 				}
-			}
-			if et, ok := tok.(xml.EndElement); ok {
-				if et.Name.Local == "AlternateContent" {
-					break
+				err = d.Skip() // skip unsupported tags
+				if err != nil {
+					return nil, err
 				}
 			}
-			err = d.Skip() // skip unsupported tags
-			if err != nil {
-				return nil, err
-			}
 		}
 	default:
 		err = d.Skip() // skip unsupported tags
@@ -180,6 +170,22 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 	return
 }
 
+// parseChoice goes into a choice and parses its first element
+func (r *Run) parseChoice(d *xml.Decoder) (child interface{}, err error) {
+	for {
+		tok, err := d.Token()
+		if err != nil {
+			return nil, err
+		}
+		switch tt := tok.(type) {
+		case xml.StartElement:
+			return r.parse(d, tt)
+		case xml.EndElement: // empty choice
+			return nil, nil
+		}
+	}
+}
+
 // KeepElements keep named elems amd removes others
 //
 // names: *docx.Text *docx.Drawing *docx.Tab *docx.BarterRabbet
-- 
2.43.0


From acf685e749450f4eb8317c8e0c7f40ac08800e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 06/40] fix: keep the whole text of a w:t that is split by a
 comment or CDATA section

---
 structtext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 17155b6..8f039f7 100644
--- a/structtext.go
+++ b/structtext.go
@@ -134,7 +134,7 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 
 		if tt, ok := t.(xml.CharData); ok {
-			r.Text = string(tt) // implicitly copy
+			r.Text += string(tt) // implicitly copy
 		}
 	}
 
-- 
2.43.0


From 205f7a73fa47d41f53e8e9535b7fea2100e00570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 07/40] fix: ignore directory entries of the package, which
 made saving a parsed document fail

---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 8b7f8a9..8a8063e 100644
--- a/unpack.go
+++ b/unpack.go
@@ -44,6 +44,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
+		if strings.HasSuffix(f.Name, "/") { // directory entry has no content
+			continue
+		}
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
 			if err != nil {
-- 
2.43.0


From 597b4e5db9309e376705ca82f6aa7adc67fb7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 08/40] fix: MergeText appends the text following a non-text
 element of the merged run, not its last text twice

---
 structtext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structtext.go b/structtext.go
index 8f039f7..4e3ffdc 100644
--- a/structtext.go
+++ b/structtext.go
@@ -290,7 +290,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 							if noappend {
 								noappend = false
 							} else {
-								prevrun.Children = append(prevrun.Children, t)
+								prevrun.Children = append(prevrun.Children, prevtext)
 							}
 							prevtext = &Text{}
 						}
@@ -298,7 +298,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					}
 				}
 				if prevtext.Text != "" && !noappend {
-					prevrun.Children = append(prevrun.Children, t)
+					prevrun.Children = append(prevrun.Children, prevtext)
 				}
 			} else {
 				prevrun = &r
-- 
2.43.0


From b6ab45ead4d010b298723936abd397f15608ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 09/40] fix: MergeText does not move text across hyperlinks and
 other non-run elements

---
 structtext.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structtext.go b/structtext.go
index 4e3ffdc..8ec196e 100644
--- a/structtext.go
+++ b/structtext.go
@@ -305,6 +305,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 				np.Children = append(np.Children, &r)
 			}
 		default:
+			prevrun = nil // runs beside a non-run element are not contiguous
 			np.Children = append(np.Children, o)
 		}
 	}
-- 
2.43.0


From ce0f152c75cc4f3919166e4161d1e8b1dc8ae37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 10/40] fix: MergeText does not drop the field code of a merged
 run

---
 structtext.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 8ec196e..a49f41f 100644
--- a/structtext.go
+++ b/structtext.go
@@ -265,7 +265,8 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 			if t.Text != "" {
 				r.Children = append(r.Children, t)
 			}
-			if prevrun != nil && canmerge(prevrun, &r) {
+			// field codes cannot be merged
+			if prevrun != nil && prevrun.InstrText == "" && r.InstrText == "" && canmerge(prevrun, &r) {
 				var prevtext *Text
 				noappend := false
 				if len(prevrun.Children) == 0 {
-- 
2.43.0


From e85a386962bc3cb05df8b18d7a6b4b36f55996cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 11/40] fix: MergeText keeps xml:space of the merged texts

---
 structtext.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/structtext.go b/structtext.go
index a49f41f..eddb5e2 100644
--- a/structtext.go
+++ b/structtext.go
@@ -141,6 +141,17 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	return nil
 }
 
+// append the content of another text, whose spaces are still preserved
+func (r *Text) append(x *Text) {
+	if x.Text == "" {
+		return
+	}
+	r.Text += x.Text
+	if x.XMLSpace != "" && r.XMLSpace != "preserve" {
+		r.XMLSpace = x.XMLSpace
+	}
+}
+
 // RunMergeRule compares two runs and decides whether they can be merged
 type RunMergeRule func(r1, r2 *Run) bool
 
@@ -251,9 +262,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 			for _, c := range o.Children {
 				switch x := c.(type) {
 				case *Text:
-					if x.Text != "" {
-						t.Text += x.Text
-					}
+					t.append(x)
 				default:
 					if t.Text != "" {
 						r.Children = append(r.Children, t)
@@ -283,9 +292,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 				for _, c := range r.Children {
 					switch x := c.(type) {
 					case *Text:
-						if x.Text != "" {
-							prevtext.Text += x.Text
-						}
+						prevtext.append(x)
 					default:
 						if prevtext.Text != "" {
 							if noappend {
-- 
2.43.0


From 482370a2b6ff8dd8a8f39ee85414f4500d49149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 12/40] fix: AddText marks text with leading or trailing spaces
 as space-preserving

---
 apitext.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apitext.go b/apitext.go
index 6e3b879..7c6c33d 100644
--- a/apitext.go
+++ b/apitext.go
@@ -52,9 +52,13 @@ func (p *Paragraph) AddText(text string) *Run {
 				c = append(c, &Tab{})
 			}
 			if k != "" {
-				c = append(c, &Text{
+				t := &Text{
 					Text: k,
-				})
+				}
+				if strings.TrimSpace(k) != k {
+					t.XMLSpace = "preserve"
+				}
+				c = append(c, t)
 			}
 		}
 	}
-- 
2.43.0


From 6750fcac4e279347c94160d1b0364bcbe56206f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 13/40] fix: save a link to a bookmark as w:anchor, not as a
 dangling relationship id

---
 structdoc.go  | 16 ++++++++++------
 structlink.go | 19 ++++++++++++++++++-
 structpara.go |  7 +++----
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 4265fa4..5b422d5 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -315,14 +315,18 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 			continue
 		}
 		if h, ok := pc.(*Hyperlink); ok {
-			tgt, err := p.file.ReferTarget(h.ID)
-			if err != nil {
-				continue
+			rid := h.ID
+			if !h.isAnchorOnly() {
+				tgt, err := p.file.ReferTarget(h.ID)
+				if err != nil {
+					continue
+				}
+				rid = to.addLinkRelation(tgt)
 			}
-			rid := to.addLinkRelation(tgt)
 			np.Children = append(np.Children, &Hyperlink{
-				ID:  rid,
-				Run: *h.Run.copymedia(to),
+				ID:     rid,
+				Anchor: h.Anchor,
+				Run:    *h.Run.copymedia(to),
 			})
 			continue
 		}
diff --git a/structlink.go b/structlink.go
index 3132b7d..cc5dadb 100644
--- a/structlink.go
+++ b/structlink.go
@@ -29,10 +29,27 @@ import (
 // Hyperlink element contains links
 type Hyperlink struct {
 	XMLName xml.Name `xml:"w:hyperlink,omitempty"`
-	ID      string   `xml:"r:id,attr"`
+	ID      string   `xml:"r:id,attr,omitempty"`
+	Anchor  string   `xml:"w:anchor,attr,omitempty"` // Anchor is a bookmark, without relationship ID equals to it
 	Run     Run
 }
 
+// isAnchorOnly tells whether the link has no relationship
+func (r *Hyperlink) isAnchorOnly() bool {
+	return r.Anchor != "" && r.ID == r.Anchor
+}
+
+// MarshalXML ...
+func (r *Hyperlink) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	type hyperlink Hyperlink // has no MarshalXML
+	h := hyperlink(*r)
+	if r.isAnchorOnly() {
+		h.ID = ""
+	}
+	start.Name = xml.Name{Local: "w:hyperlink"}
+	return e.EncodeElement(&h, start)
+}
+
 // UnmarshalXML ...
 func (r *Hyperlink) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	for {
diff --git a/structpara.go b/structpara.go
index 6ab708d..9ac668d 100644
--- a/structpara.go
+++ b/structpara.go
@@ -270,10 +270,9 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				id := getAtt(tt.Attr, "id")
 				anchor := getAtt(tt.Attr, "anchor")
-				if id != "" {
-					value.ID = id
-				}
-				if anchor != "" {
+				value.ID = id
+				value.Anchor = anchor
+				if id == "" {
 					value.ID = anchor
 				}
 				elem = &value
-- 
2.43.0


From 2c91c3a990cdde3ceb39c0e44d3ddd858731e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:54 +0000
Subject: [PATCH 14/40] fix: render the text of a parsed hyperlink

---
 structpara.go | 50 +++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/structpara.go b/structpara.go
index 9ac668d..a9a88be 100644
--- a/structpara.go
+++ b/structpara.go
@@ -189,16 +189,42 @@ type Paragraph struct {
 	file *Docx
 }
 
+// writeText writes the plain text of the run
+func (r *Run) writeText(sb *strings.Builder) {
+	for _, c := range r.Children {
+		switch x := c.(type) {
+		case *Text:
+			sb.WriteString(x.Text)
+		case *Tab:
+			sb.WriteByte('\t')
+		case *BarterRabbet:
+			sb.WriteByte('\n')
+		case *Drawing:
+			if x.Inline != nil {
+				sb.WriteString(x.Inline.String())
+				continue
+			}
+			if x.Anchor != nil {
+				sb.WriteString(x.Anchor.String())
+				continue
+			}
+		}
+	}
+}
+
 func (p *Paragraph) String() string {
 	sb := strings.Builder{}
 	for _, c := range p.Children {
 		switch o := c.(type) {
 		case *Hyperlink:
 			id := o.ID
-			text := o.Run.InstrText
 			link, err := p.file.ReferTarget(id)
 			sb.WriteString("[")
-			sb.WriteString(text)
+			n := sb.Len()
+			o.Run.writeText(&sb)
+			if sb.Len() == n { // no visible text, as in the links made by AddLink
+				sb.WriteString(o.Run.InstrText)
+			}
 			sb.WriteString("](")
 			if err != nil {
 				sb.WriteString(id)
@@ -207,25 +233,7 @@ func (p *Paragraph) String() string {
 			}
 			sb.WriteByte(')')
 		case *Run:
-			for _, c := range o.Children {
-				switch x := c.(type) {
-				case *Text:
-					sb.WriteString(x.Text)
-				case *Tab:
-					sb.WriteByte('\t')
-				case *BarterRabbet:
-					sb.WriteByte('\n')
-				case *Drawing:
-					if x.Inline != nil {
-						sb.WriteString(x.Inline.String())
-						continue
-					}
-					if x.Anchor != nil {
-						sb.WriteString(x.Anchor.String())
-						continue
-					}
-				}
-			}
+			o.writeText(&sb)
 		default:
 			continue
 		}
-- 
2.43.0


From 9d81cf37b0e380ef87cb6c6037b31668c895e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:12 +0000
Subject: [PATCH 15/40] fix: always save the relationships part in its
 namespace

---
 unpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 8a8063e..de02feb 100644
--- a/unpack.go
+++ b/unpack.go
@@ -41,6 +41,7 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx = new(Docx)
 	docx.mediaNameIdx = make(map[string]int, 64)
 	docx.slowIDs = make(map[string]uintptr, 64)
+	docx.docRelation.Xmlns = XMLNS_REL
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
@@ -112,7 +113,6 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.docRelation.Xmlns = XMLNS_R
 	err = xml.NewDecoder(zf).Decode(&f.docRelation)
 	if err != nil {
 		return err
-- 
2.43.0


From bd0861bd7cf9071121c63870daa06a142bd6a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 16/40] fix: accept relationship ids of any form when parsing

---
 unpack.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/unpack.go b/unpack.go
index de02feb..c9fc426 100644
--- a/unpack.go
+++ b/unpack.go
@@ -23,7 +23,6 @@ package docx
 import (
 	"archive/zip"
 	"encoding/xml"
-	"errors"
 	"io"
 	"strconv"
 	"strings"
@@ -119,11 +118,11 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	for _, r := range f.docRelation.Relationship {
 		if !strings.HasPrefix(r.ID, "rId") {
-			return errors.New("invalid rel ID: " + r.ID)
+			continue // any ID is allowed, but it cannot conflict with ours
 		}
-		id, err := strconv.ParseUint(r.ID[3:], 10, 64)
+		id, err := strconv.ParseUint(r.ID[3:], 10, 31)
 		if err != nil {
-			return err
+			continue
 		}
 		if f.rID < uintptr(id) {
 			f.rID = uintptr(id)
-- 
2.43.0


From 1d88f9221a74902be45e65db1ffeaa3bce619397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:31 +0000
Subject: [PATCH 17/40] fix: do not overwrite a loaded image by adding another
 one with the same name

---
 image.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/image.go b/image.go
index 93183c2..27a007d 100644
--- a/image.go
+++ b/image.go
@@ -27,7 +27,13 @@ import (
 
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
-	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
+	m := Media{Data: data}
+	for {
+		m.Name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+		if _, ok := f.mediaNameIdx[m.Name]; !ok { // not used by a loaded media
+			break
+		}
+	}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
-- 
2.43.0


From 84524302952f14749173826c08a7e6f46dc04aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 18/40] fix: do not give the id of a loaded drawing to a new
 one

---
 apidrawing.go    |  5 ++---
 apishape.go      |  5 ++---
 docx.go          |  1 +
 id.go            | 23 +++++++++++++++++++++++
 structdrawing.go |  7 ++++---
 5 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/apidrawing.go b/apidrawing.go
index 2c00cc3..f1275fe 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -24,7 +24,6 @@ import (
 	"bytes"
 	"os"
 	"strconv"
-	"sync/atomic"
 
 	"github.com/fumiama/imgsz"
 )
@@ -35,7 +34,7 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
-	idn := int(atomic.AddUintptr(&p.file.docID, 1))
+	idn := p.file.nextDocID()
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
 	rid := p.file.addImage(format, pic)
@@ -142,7 +141,7 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
-	idn := int(atomic.AddUintptr(&p.file.docID, 1))
+	idn := p.file.nextDocID()
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
 	rid := p.file.addImage(format, pic)
diff --git a/apishape.go b/apishape.go
index 768164e..3a59668 100644
--- a/apishape.go
+++ b/apishape.go
@@ -22,12 +22,11 @@ package docx
 
 import (
 	"strconv"
-	"sync/atomic"
 )
 
 // AddInlineShape adds wsp named drawing to paragraph
 func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *ALine) *Run {
-	idn := int(atomic.AddUintptr(&p.file.docID, 1))
+	idn := p.file.nextDocID()
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
 		Inline: &WPInline{
@@ -88,7 +87,7 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 
 // AddAnchorShape adds wsp named drawing to paragraph
 func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *ALine) *Run {
-	idn := int(atomic.AddUintptr(&p.file.docID, 1))
+	idn := p.file.nextDocID()
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
 		Anchor: &WPAnchor{
diff --git a/docx.go b/docx.go
index c7753f4..6b07cef 100644
--- a/docx.go
+++ b/docx.go
@@ -44,6 +44,7 @@ type Docx struct {
 	rID       uintptr
 	imageID   uintptr
 	docID     uintptr
+	docIDs    map[int]struct{} // docIDs are the drawing IDs used by the parsed content
 	slowIDs   map[string]uintptr
 	slowIDsMu sync.Mutex
 
diff --git a/id.go b/id.go
index 31b6157..76be261 100644
--- a/id.go
+++ b/id.go
@@ -20,6 +20,8 @@
 
 package docx
 
+import "sync/atomic"
+
 // IncreaseID by name
 func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Lock()
@@ -29,3 +31,24 @@ func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Unlock()
 	return
 }
+
+// nextDocID returns a drawing ID that is not used in the document
+func (f *Docx) nextDocID() int {
+	for {
+		id := int(atomic.AddUintptr(&f.docID, 1))
+		if _, ok := f.docIDs[id]; !ok {
+			return id
+		}
+	}
+}
+
+// useDocID marks a parsed drawing ID as used, it is not thread-safe
+func (f *Docx) useDocID(id int) {
+	if f == nil {
+		return
+	}
+	if f.docIDs == nil {
+		f.docIDs = make(map[int]struct{}, 64)
+	}
+	f.docIDs[id] = struct{}{}
+}
diff --git a/structdrawing.go b/structdrawing.go
index 0d44885..afa0c97 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -27,7 +27,6 @@ import (
 	"io"
 	"strconv"
 	"strings"
-	"sync/atomic"
 )
 
 //nolint:revive,stylecheck
@@ -198,6 +197,7 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.useDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				var value WPCNvGraphicFramePr
 				err = d.DecodeElement(&value, &tt)
@@ -291,7 +291,7 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 				return nil
 			}
 			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
+			idn := to.nextDocID()
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
 			m := r.file.Media(tgt[6:])
@@ -1289,6 +1289,7 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.useDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				r.CNvGraphicFramePr = new(WPCNvGraphicFramePr)
 				err = d.DecodeElement(r.CNvGraphicFramePr, &tt)
@@ -1382,7 +1383,7 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 				return nil
 			}
 			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
+			idn := to.nextDocID()
 			id := int(to.IncreaseID("图片"))
 			ids := strconv.Itoa(id)
 			m := r.file.Media(tgt[6:])
-- 
2.43.0


From 889df6cf9fee735162f6ada9dfe3b022f2355fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 19/40] fix: read on/off values that are words when parsing

---
 helper.go        | 11 ++++++++++
 structdrawing.go | 18 ++++++++---------
 structpara.go    | 52 ++++++++++++++++++++++--------------------------
 structshape.go   | 10 +++++-----
 structtable.go   | 17 +++++++++-------
 5 files changed, 59 insertions(+), 49 deletions(-)

diff --git a/helper.go b/helper.go
index d91ad81..6bb3a7a 100644
--- a/helper.go
+++ b/helper.go
@@ -68,3 +68,14 @@ func GetInt(s string) (int, error) {
 	_, err = fmt.Sscanf(s, "%d", &v)
 	return v, err
 }
+
+// getOnOff gets an on/off value, which is either a number or a word
+func getOnOff(s string) (int, error) {
+	switch s {
+	case "true", "on":
+		return 1, nil
+	case "false", "off":
+		return 0, nil
+	}
+	return GetInt(s)
+}
diff --git a/structdrawing.go b/structdrawing.go
index afa0c97..3d7a75c 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -452,7 +452,7 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				if v == "" {
 					continue
 				}
-				w.Locks.NoChangeAspect, err = GetInt(v)
+				w.Locks.NoChangeAspect, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -733,7 +733,7 @@ func (p *PicCNvPicPr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if v == "" {
 					continue
 				}
-				value.NoChangeAspect, err = GetInt(v)
+				value.NoChangeAspect, err = getOnOff(v)
 				if err != nil {
 					return err
 				}
@@ -970,9 +970,9 @@ func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		case "rot":
 			a.Rot, err = GetInt64(attr.Value)
 		case "flipH":
-			a.FlipH, err = GetInt(attr.Value)
+			a.FlipH, err = getOnOff(attr.Value)
 		case "flipV":
-			a.FlipV, err = GetInt(attr.Value)
+			a.FlipV, err = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
@@ -1208,17 +1208,17 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		case "distR":
 			r.DistR, err = GetInt64(tt.Value)
 		case "simplePos":
-			r.SimplePos, err = GetInt(tt.Value)
+			r.SimplePos, err = getOnOff(tt.Value)
 		case "relativeHeight":
 			r.RelativeHeight, err = GetInt(tt.Value)
 		case "behindDoc":
-			r.BehindDoc, err = GetInt(tt.Value)
+			r.BehindDoc, err = getOnOff(tt.Value)
 		case "locked":
-			r.Locked, err = GetInt(tt.Value)
+			r.Locked, err = getOnOff(tt.Value)
 		case "layoutInCell":
-			r.LayoutInCell, err = GetInt(tt.Value)
+			r.LayoutInCell, err = getOnOff(tt.Value)
 		case "allowOverlap":
-			r.AllowOverlap, err = GetInt(tt.Value)
+			r.AllowOverlap, err = getOnOff(tt.Value)
 		}
 		if err != nil {
 			return err
diff --git a/structpara.go b/structpara.go
index a9a88be..15a6d93 100644
--- a/structpara.go
+++ b/structpara.go
@@ -119,47 +119,43 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 			case "textAlignment":
 				p.TextAlignment = &TextAlignment{Val: getAtt(tt.Attr, "val")}
 			case "adjustRightInd":
-				var value AdjustRightInd
+				value := AdjustRightInd{Val: 1} // on by default
 				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
-				if err != nil {
-					return err
+				if v != "" {
+					value.Val, err = getOnOff(v)
+					if err != nil {
+						return err
+					}
 				}
 				p.AdjustRightInd = &value
 			case "snapToGrid":
-				var value SnapToGrid
+				value := SnapToGrid{Val: 1} // on by default
 				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
-				if err != nil {
-					return err
+				if v != "" {
+					value.Val, err = getOnOff(v)
+					if err != nil {
+						return err
+					}
 				}
 				p.SnapToGrid = &value
 			case "kinsoku":
-				var value Kinsoku
+				value := Kinsoku{Val: 1} // on by default
 				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
-				if err != nil {
-					return err
+				if v != "" {
+					value.Val, err = getOnOff(v)
+					if err != nil {
+						return err
+					}
 				}
 				p.Kinsoku = &value
 			case "overflowPunct":
-				var value OverflowPunct
+				value := OverflowPunct{Val: 1} // on by default
 				v := getAtt(tt.Attr, "val")
-				if v == "" {
-					continue
-				}
-				value.Val, err = GetInt(v)
-				if err != nil {
-					return err
+				if v != "" {
+					value.Val, err = getOnOff(v)
+					if err != nil {
+						return err
+					}
 				}
 				p.OverflowPunct = &value
 			default:
diff --git a/structshape.go b/structshape.go
index ce8e557..35db690 100644
--- a/structshape.go
+++ b/structshape.go
@@ -147,7 +147,7 @@ func (w *WPSCNvSpPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err e
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "txBox":
-			w.TxBox, err = GetInt(attr.Value)
+			w.TxBox, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -196,7 +196,7 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "noChangeArrowheads":
-			l.NoChangeArrowheads, err = GetInt(attr.Value)
+			l.NoChangeArrowheads, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -229,7 +229,7 @@ func (r *ABlipFill) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err er
 				return err
 			}
 		case "rotWithShape":
-			r.RotWithShape, err = GetInt(attr.Value)
+			r.RotWithShape, err = getOnOff(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -642,9 +642,9 @@ func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		case "anchor":
 			r.Anchor = attr.Value
 		case "anchorCtr":
-			r.AnchorCtr, _ = GetInt(attr.Value)
+			r.AnchorCtr, _ = getOnOff(attr.Value)
 		case "upright":
-			r.Upright, _ = GetInt(attr.Value)
+			r.Upright, _ = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
diff --git a/structtable.go b/structtable.go
index f42472f..f52e80b 100644
--- a/structtable.go
+++ b/structtable.go
@@ -301,7 +301,7 @@ type WTableLook struct {
 }
 
 // UnmarshalXML ...
-func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 	for _, attr := range start.Attr {
 		if attr.Value == "" {
 			continue
@@ -310,20 +310,23 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		case "val":
 			t.Val = attr.Value
 		case "firstRow":
-			t.FirstRow = int(attr.Value[0] - '0')
+			t.FirstRow, err = getOnOff(attr.Value)
 		case "lastRow":
-			t.LastRow = int(attr.Value[0] - '0')
+			t.LastRow, err = getOnOff(attr.Value)
 		case "firstColumn":
-			t.FirstCol = int(attr.Value[0] - '0')
+			t.FirstCol, err = getOnOff(attr.Value)
 		case "lastColumn":
-			t.LastCol = int(attr.Value[0] - '0')
+			t.LastCol, err = getOnOff(attr.Value)
 		case "noHBand":
-			t.NoHBand = int(attr.Value[0] - '0')
+			t.NoHBand, err = getOnOff(attr.Value)
 		case "noVBand":
-			t.NoVBand = int(attr.Value[0] - '0')
+			t.NoVBand, err = getOnOff(attr.Value)
 		default:
 			// ignore other attributes
 		}
+		if err != nil {
+			return err
+		}
 	}
 	// Consume the remaining content and the end element
 	return d.Skip()
-- 
2.43.0


From ea6a47d1736e425bd68cb7636874fbcb117b1338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 20/40] fix: do not turn on the bold, italic and strike that
 are off in the parsed document

---
 structeffects.go |  4 +++-
 structrun.go     | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index 302479f..fbbfe4b 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -60,11 +60,13 @@ type SizeCs struct {
 // Bold ...
 type Bold struct {
 	XMLName xml.Name `xml:"w:b,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"` // Val is an on/off value, empty means on
 }
 
 // Italic ...
 type Italic struct {
 	XMLName xml.Name `xml:"w:i,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"` // Val is an on/off value, empty means on
 }
 
 // Underline ...
@@ -113,7 +115,7 @@ type VertAlign struct {
 // Strike ...
 type Strike struct {
 	XMLName xml.Name `xml:"w:strike,omitempty"`
-	Val     string   `xml:"w:val,attr"`
+	Val     string   `xml:"w:val,attr,omitempty"` // Val is an on/off value, empty means on
 }
 
 // Shade is an element that represents a shading pattern applied to a document element.
diff --git a/structrun.go b/structrun.go
index 039d702..6268646 100644
--- a/structrun.go
+++ b/structrun.go
@@ -246,11 +246,22 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Fonts = &value
 			case "b":
-				r.Bold = &Bold{}
+				r.Bold = &Bold{Val: getAtt(tt.Attr, "val")}
 			case "iCs":
+				v := getAtt(tt.Attr, "val")
+				if v != "" {
+					on, err := getOnOff(v)
+					if err != nil {
+						return err
+					}
+					if on == 0 {
+						r.ICs = nil
+						continue
+					}
+				}
 				r.ICs = &struct{}{}
 			case "i":
-				r.Italic = &Italic{}
+				r.Italic = &Italic{Val: getAtt(tt.Attr, "val")}
 			case "u":
 				var value Underline
 				value.Val = getAtt(tt.Attr, "val")
-- 
2.43.0


From 0932cd66500dbc50d14297c79edd9e37f40cdcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 21/40] fix: read the section sizes that are not plain
 integers, like all the other sizes

---
 structsect.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/structsect.go b/structsect.go
index 334fa12..558ba53 100644
--- a/structsect.go
+++ b/structsect.go
@@ -20,7 +20,6 @@ package docx
 import (
 	"encoding/xml"
 	"io"
-	"strconv"
 	"strings"
 )
 
@@ -119,12 +118,12 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "w":
-			pgsz.W, err = strconv.Atoi(attr.Value)
+			pgsz.W, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
 		case "h":
-			pgsz.H, err = strconv.Atoi(attr.Value)
+			pgsz.H, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -143,37 +142,37 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "top":
-			pgmar.Top, err = strconv.Atoi(attr.Value)
+			pgmar.Top, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
 		case "left":
-			pgmar.Left, err = strconv.Atoi(attr.Value)
+			pgmar.Left, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
 		case "bottom":
-			pgmar.Bottom, err = strconv.Atoi(attr.Value)
+			pgmar.Bottom, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
 		case "right":
-			pgmar.Right, err = strconv.Atoi(attr.Value)
+			pgmar.Right, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
 		case "header":
-			pgmar.Header, err = strconv.Atoi(attr.Value)
+			pgmar.Header, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
 		case "footer":
-			pgmar.Footer, err = strconv.Atoi(attr.Value)
+			pgmar.Footer, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
 		case "gutter":
-			pgmar.Gutter, err = strconv.Atoi(attr.Value)
+			pgmar.Gutter, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -192,7 +191,7 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "space":
-			cols.Space, err = strconv.Atoi(attr.Value)
+			cols.Space, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
@@ -211,7 +210,7 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "linePitch":
-			dg.LinePitch, err = strconv.Atoi(attr.Value)
+			dg.LinePitch, err = GetInt(attr.Value)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 9731a317e98256b065b858ed13137b70852114d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 22/40] fix: read the type of a cell width that has no w:w

---
 structtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtable.go b/structtable.go
index f52e80b..75a0fa5 100644
--- a/structtable.go
+++ b/structtable.go
@@ -604,6 +604,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 			switch tt.Name.Local {
 			case "tcW":
 				r.TableCellWidth = new(WTableCellWidth)
+				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 				v := getAtt(tt.Attr, "w")
 				if v == "" {
 					continue
@@ -612,7 +613,6 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil {
 					return err
 				}
-				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 			case "vMerge":
 				r.VMerge = &WvMerge{Val: getAtt(tt.Attr, "val")}
 			case "gridSpan":
-- 
2.43.0


From b1a5c20c40757423794d4954f54f4e050fac02a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 23/40] fix: read the a:avLst of a shape's geometry

---
 structeffects.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structeffects.go b/structeffects.go
index fbbfe4b..71c2da3 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -216,7 +216,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
-				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
+				err = d.DecodeElement(&w.PrstGeom, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
 			case "solidFill":
 				var value ASolidFill
 				err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From 6f9f98c7e002ee30951a5d83f5971f3bc81c328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:09 +0000
Subject: [PATCH 24/40] fix: always declare the DrawingML namespaces, which a
 parsed document may declare elsewhere or with other prefixes

---
 docx.go      | 2 ++
 empty.go     | 2 ++
 structdoc.go | 4 ++++
 unpack.go    | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/docx.go b/docx.go
index 6b07cef..bce9d34 100644
--- a/docx.go
+++ b/docx.go
@@ -114,6 +114,8 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 			XMLWPS: XMLNS_WPS,
 			XMLWPC: XMLNS_WPC,
 			XMLWPG: XMLNS_WPG,
+			XMLA:   XMLNS_DRAWINGML_MAIN,
+			XMLPIC: XMLNS_DRAWINGML_PICTURE,
 			Body:   Body{Items: items},
 		},
 		docRelation: Relationships{
diff --git a/empty.go b/empty.go
index 394486c..b20825c 100644
--- a/empty.go
+++ b/empty.go
@@ -36,6 +36,8 @@ func newEmptyFile() *Docx {
 			XMLWPS: XMLNS_WPS,
 			XMLWPC: XMLNS_WPC,
 			XMLWPG: XMLNS_WPG,
+			XMLA:   XMLNS_DRAWINGML_MAIN,
+			XMLPIC: XMLNS_DRAWINGML_PICTURE,
 			// XMLMC:  XMLNS_MC,
 			// XMLO:   XMLNS_O,
 			// XMLV:   XMLNS_V,
diff --git a/structdoc.go b/structdoc.go
index 5b422d5..58d04c5 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -162,6 +162,8 @@ type Document struct {
 	XMLWPS  string   `xml:"xmlns:wps,attr,omitempty"` // cannot be unmarshalled in
 	XMLWPC  string   `xml:"xmlns:wpc,attr,omitempty"` // cannot be unmarshalled in
 	XMLWPG  string   `xml:"xmlns:wpg,attr,omitempty"` // cannot be unmarshalled in
+	XMLA    string   `xml:"xmlns:a,attr,omitempty"`   // cannot be unmarshalled in
+	XMLPIC  string   `xml:"xmlns:pic,attr,omitempty"` // cannot be unmarshalled in
 	// XMLMC   string   `xml:"xmlns:mc,attr,omitempty"`  // cannot be unmarshalled in
 	// XMLWP14 string   `xml:"xmlns:wp14,attr,omitempty"` // cannot be unmarshalled in
 
@@ -237,6 +239,8 @@ newdoclop:
 		ndoc.Document.XMLWPS = XMLNS_WPS
 		ndoc.Document.XMLWPC = XMLNS_WPC
 		ndoc.Document.XMLWPG = XMLNS_WPG
+		ndoc.Document.XMLA = XMLNS_DRAWINGML_MAIN
+		ndoc.Document.XMLPIC = XMLNS_DRAWINGML_PICTURE
 		// ndoc.Document.XMLWP14 = XMLNS_WP14
 		ndoc.Document.XMLName.Space = XMLNS_W
 		ndoc.Document.XMLName.Local = "document"
diff --git a/unpack.go b/unpack.go
index c9fc426..1be8b2b 100644
--- a/unpack.go
+++ b/unpack.go
@@ -93,6 +93,8 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	f.Document.XMLWPS = XMLNS_WPS
 	f.Document.XMLWPC = XMLNS_WPC
 	f.Document.XMLWPG = XMLNS_WPG
+	f.Document.XMLA = XMLNS_DRAWINGML_MAIN
+	f.Document.XMLPIC = XMLNS_DRAWINGML_PICTURE
 	// f.Document.XMLWP14 = XMLNS_WP14
 	f.Document.XMLName.Space = XMLNS_W
 	f.Document.XMLName.Local = "document"
-- 
2.43.0


From 519f19fef61cfe30266e01f1943299f9826e1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:22 +0000
Subject: [PATCH 25/40] fix: WriteTo reports the failure of writing the end of
 the package and the written size

---
 docx.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/docx.go b/docx.go
index bce9d34..2c5491b 100644
--- a/docx.go
+++ b/docx.go
@@ -153,10 +153,26 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
-	zipWriter := zip.NewWriter(writer)
-	defer zipWriter.Close()
+	cw := &countWriter{w: writer}
+	zipWriter := zip.NewWriter(cw)
+	err = f.pack(zipWriter)
+	if err == nil {
+		err = zipWriter.Close() // the package is incomplete before closing
+	}
+	return cw.n, err
+}
+
+// countWriter counts the bytes written to w
+type countWriter struct {
+	w io.Writer
+	n int64
+}
 
-	return 0, f.pack(zipWriter)
+// Write ...
+func (c *countWriter) Write(p []byte) (int, error) {
+	n, err := c.w.Write(p)
+	c.n += int64(n)
+	return n, err
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From a9b607325ee14f48428a5736c556769288d96f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 26/40] fix: close the template files after saving

---
 pack.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pack.go b/pack.go
index b864691..c643bba 100644
--- a/pack.go
+++ b/pack.go
@@ -33,6 +33,13 @@ import (
 // others from the actual in-memory structure
 func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 	files := make(map[string]io.Reader, 64)
+	defer func() {
+		for _, r := range files {
+			if c, ok := r.(io.Closer); ok {
+				_ = c.Close()
+			}
+		}
+	}()
 
 	if f.template != "" {
 		for _, name := range f.tmpfslst {
-- 
2.43.0


From 54fe24bdcea2444efb5c3d309a06cb3c8af4f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 27/40] fix: rendering a drawing without graphic data or with
 an unresolvable picture does not panic

---
 media.go         | 25 +++++++++++++++++++++++++
 structdrawing.go | 19 +++++++++++++------
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/media.go b/media.go
index 01acb24..c644eb9 100644
--- a/media.go
+++ b/media.go
@@ -20,6 +20,11 @@
 
 package docx
 
+import (
+	"path"
+	"strings"
+)
+
 //nolint:revive,stylecheck
 const MEDIA_FOLDER = `word/media/`
 
@@ -43,6 +48,26 @@ func (f *Docx) Media(name string) *Media {
 	return &f.media[i]
 }
 
+// mediaOf gets the media that is embedded by a relationship ID
+func (f *Docx) mediaOf(embed string) (*Media, error) {
+	tgt, err := f.ReferTarget(embed)
+	if err != nil {
+		return nil, err
+	}
+	if !strings.HasPrefix(tgt, "/") { // relative to word/document.xml
+		tgt = "/word/" + tgt
+	}
+	tgt = path.Clean(tgt)
+	if !strings.HasPrefix(tgt, "/"+MEDIA_FOLDER) {
+		return nil, ErrRefTargetNotFound
+	}
+	m := f.Media(tgt[len("/"+MEDIA_FOLDER):])
+	if m == nil {
+		return nil, ErrRefTargetNotFound
+	}
+	return m, nil
+}
+
 // addMedia append the media to docx's media list
 func (f *Docx) addMedia(m Media) {
 	f.mediaNameIdx[m.Name] = len(f.media)
diff --git a/structdrawing.go b/structdrawing.go
index 3d7a75c..b326718 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -228,6 +228,9 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 // String ...
 func (r *WPInline) String() string {
 	sb := strings.Builder{}
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return "![inln?](unknown)"
+	}
 	if r.Graphic.GraphicData.Pic != nil {
 		sb.WriteString("![inlnim ")
 		switch {
@@ -235,16 +238,18 @@ func (r *WPInline) String() string {
 			sb.WriteString(r.DocPr.Name)
 		case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-		default:
+		case r.Graphic.GraphicData.Pic.BlipFill != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+		default:
+			sb.WriteString("nil")
 		}
 		sb.WriteString("](")
 		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			m, err := r.file.mediaOf(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				sb.WriteString(err.Error())
 			} else {
-				h := md5.Sum(r.file.Media(tgt[6:]).Data)
+				h := md5.Sum(m.Data)
 				sb.WriteString(hex.EncodeToString(h[:]))
 			}
 		}
@@ -1326,16 +1331,18 @@ func (r *WPAnchor) String() string {
 				sb.WriteString(r.DocPr.Name)
 			case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-			default:
+			case r.Graphic.GraphicData.Pic.BlipFill != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+			default:
+				sb.WriteString("nil")
 			}
 			sb.WriteString("](")
 			if r.Graphic.GraphicData.Pic.BlipFill != nil {
-				tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
+				m, err := r.file.mediaOf(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 				if err != nil {
 					sb.WriteString(err.Error())
 				} else {
-					h := md5.Sum(r.file.Media(tgt[6:]).Data)
+					h := md5.Sum(m.Data)
 					sb.WriteString(hex.EncodeToString(h[:]))
 				}
 			}
-- 
2.43.0


From dff2b63d86c37257c6c37cb81ba4deb2f769f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 28/40] fix: the elements copied by SplitByParagraph and
 AppendFile keep all their content and references and share nothing with the
 original

Groups, effects of a picture and links with a missing relationship were lost,
pictures within canvases, groups and text boxes were left dangling, shapes kept
belonging to (and kept the drawing ID of) the original document, setting the
properties of a copied run, paragraph or table changed the original one, and
drawings without graphic data or with an unresolvable picture made it panic.
---
 structdoc.go     | 162 ++++++++++++++++++++++++-----------------------
 structdrawing.go | 135 +--------------------------------------
 2 files changed, 83 insertions(+), 214 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 58d04c5..f4c0de8 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -25,6 +25,7 @@ import (
 	"io"
 	"reflect"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -270,21 +271,12 @@ newdoclop:
 		ndoc.rID = 3
 
 		for i, item := range items {
-			switch o := item.(type) {
-			case *Paragraph:
-				if separator(o) && len(ndoc.Document.Body.Items) > 0 {
-					items = items[i:]
-					docs = append(docs, ndoc)
-					continue newdoclop
-				}
-				np := o.copymedia(ndoc)
-				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, &np)
-			case *Table:
-				nt := o.copymedia(ndoc)
-				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, &nt)
-			default:
-				ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, o)
+			if o, ok := item.(*Paragraph); ok && separator(o) && len(ndoc.Document.Body.Items) > 0 {
+				items = items[i:]
+				docs = append(docs, ndoc)
+				continue newdoclop
 			}
+			ndoc.Document.Body.Items = append(ndoc.Document.Body.Items, f.copymedia(reflect.ValueOf(item), ndoc).Interface())
 		}
 
 		if len(ndoc.Document.Body.Items) > 0 {
@@ -295,85 +287,95 @@ newdoclop:
 	return
 }
 
-func (r *Run) copymedia(to *Docx) *Run {
-	nr := *r
-	nr.Children = make([]interface{}, 0, len(r.Children))
-	nr.file = to
-	for _, rc := range r.Children {
-		if d, ok := rc.(*Drawing); ok {
-			nr.Children = append(nr.Children, d.copymedia(to))
-			continue
+// copymedia makes a copy of v that belongs to another document and shares nothing
+// with the original one. All the references in it are carried to that document.
+func (f *Docx) copymedia(v reflect.Value, to *Docx) reflect.Value {
+	switch v.Kind() {
+	case reflect.Interface:
+		if v.IsNil() {
+			return v
 		}
-		nr.Children = append(nr.Children, rc)
-	}
-	return &nr
-}
-
-func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
-	np = *p
-	np.Children = make([]interface{}, 0, len(p.Children))
-	np.file = to
-	for _, pc := range p.Children {
-		if r, ok := pc.(*Run); ok {
-			np.Children = append(np.Children, r.copymedia(to))
-			continue
+		return f.copymedia(v.Elem(), to)
+	case reflect.Ptr:
+		if v.IsNil() {
+			return v
 		}
-		if h, ok := pc.(*Hyperlink); ok {
-			rid := h.ID
-			if !h.isAnchorOnly() {
-				tgt, err := p.file.ReferTarget(h.ID)
-				if err != nil {
-					continue
-				}
-				rid = to.addLinkRelation(tgt)
+		nv := reflect.New(v.Type().Elem())
+		nv.Elem().Set(f.copymedia(v.Elem(), to))
+		return nv
+	case reflect.Slice:
+		if v.IsNil() {
+			return v
+		}
+		nv := reflect.MakeSlice(v.Type(), v.Len(), v.Cap())
+		for i := 0; i < v.Len(); i++ {
+			nv.Index(i).Set(f.copymedia(v.Index(i), to))
+		}
+		return nv
+	case reflect.Struct:
+		if p, ok := v.Interface().(Paragraph); ok && p.file != nil {
+			f = p.file // where its references are
+		}
+		nv := reflect.New(v.Type()).Elem()
+		nv.Set(v)
+		for i := 0; i < v.NumField(); i++ {
+			if v.Type().Field(i).IsExported() {
+				nv.Field(i).Set(f.copymedia(v.Field(i), to))
+			}
+		}
+		if file := nv.FieldByName("file"); file.IsValid() && file.Type() == reflect.TypeOf(to) {
+			*(**Docx)(file.Addr().UnsafePointer()) = to
+		}
+		switch o := nv.Addr().Interface().(type) {
+		case *Hyperlink:
+			if o.isAnchorOnly() {
+				break
 			}
-			np.Children = append(np.Children, &Hyperlink{
-				ID:     rid,
-				Anchor: h.Anchor,
-				Run:    *h.Run.copymedia(to),
-			})
-			continue
+			tgt, err := f.ReferTarget(o.ID)
+			if err != nil {
+				o.ID = o.Anchor
+				break
+			}
+			o.ID = to.addLinkRelation(tgt)
+		case *ABlip:
+			if o.Embed == "" {
+				break
+			}
+			m, err := f.mediaOf(o.Embed)
+			if err != nil {
+				o.Embed = ""
+				break
+			}
+			o.Embed = to.addImage(m.Name[strings.LastIndex(m.Name, ".")+1:], m.Data)
+		case *WPInline:
+			o.DocPr = to.renewDocPr(o.DocPr, o.Graphic)
+		case *WPAnchor:
+			o.DocPr = to.renewDocPr(o.DocPr, o.Graphic)
 		}
-		np.Children = append(np.Children, pc)
+		return nv
+	default:
+		return v
 	}
-	return
 }
 
-func (t *Table) copymedia(to *Docx) (nt Table) {
-	nt = *t
-	nt.TableRows = make([]*WTableRow, 0, len(t.TableRows))
-	nt.file = to
-	for _, tr := range t.TableRows {
-		ntr := *tr
-		ntr.TableCells = make([]*WTableCell, 0, len(tr.TableCells))
-		ntr.file = to
-		for _, tc := range tr.TableCells {
-			ntc := *tc
-			ntc.Paragraphs = make([]*Paragraph, 0, len(tc.Paragraphs))
-			ntc.file = to
-			for _, p := range tc.Paragraphs {
-				np := p.copymedia(to)
-				ntc.Paragraphs = append(ntc.Paragraphs, &np)
-			}
-			ntr.TableCells = append(ntr.TableCells, &ntc)
+// renewDocPr gives a copied drawing its own ID, and its own name when it is a picture
+func (f *Docx) renewDocPr(docPr *WPDocPr, graphic *AGraphic) *WPDocPr {
+	if graphic != nil && graphic.GraphicData != nil && graphic.GraphicData.Pic != nil {
+		id := int(f.IncreaseID("图片"))
+		docPr = &WPDocPr{Name: "图片 " + strconv.Itoa(id)}
+		if nvpr := graphic.GraphicData.Pic.NonVisualPicProperties; nvpr != nil {
+			nvpr.NonVisualDrawingProperties = NonVisualProperties{ID: id, Name: docPr.Name}
 		}
-		nt.TableRows = append(nt.TableRows, &ntr)
 	}
-	return
+	if docPr != nil {
+		docPr.ID = f.nextDocID()
+	}
+	return docPr
 }
 
 // AppendFile appends all contents in af to f
 func (f *Docx) AppendFile(af *Docx) {
 	for _, item := range af.Document.Body.Items {
-		switch o := item.(type) {
-		case *Paragraph:
-			np := o.copymedia(f)
-			f.Document.Body.Items = append(f.Document.Body.Items, &np)
-		case *Table:
-			nt := o.copymedia(f)
-			f.Document.Body.Items = append(f.Document.Body.Items, &nt)
-		default:
-			f.Document.Body.Items = append(f.Document.Body.Items, o)
-		}
+		f.Document.Body.Items = append(f.Document.Body.Items, af.copymedia(reflect.ValueOf(item), f).Interface())
 	}
 }
diff --git a/structdrawing.go b/structdrawing.go
index b326718..a6de71f 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -25,7 +25,6 @@ import (
 	"encoding/hex"
 	"encoding/xml"
 	"io"
-	"strconv"
 	"strings"
 )
 
@@ -89,22 +88,6 @@ func (r *Drawing) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	return nil
 }
 
-func (r *Drawing) copymedia(to *Docx) *Drawing {
-	if r.Inline != nil {
-		return &Drawing{
-			Inline: r.Inline.copymedia(to),
-			file:   to,
-		}
-	}
-	if r.Anchor != nil {
-		return &Drawing{
-			Anchor: r.Anchor.copymedia(to),
-			file:   to,
-		}
-	}
-	return &Drawing{file: to}
-}
-
 // WPInline is an element that represents an inline image within a text paragraph.
 //
 // It contains information about the image's size and position,
@@ -288,64 +271,6 @@ func (r *WPInline) String() string {
 	return "![inln?](unknown)"
 }
 
-func (r *WPInline) copymedia(to *Docx) *WPInline {
-	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
-			if err != nil {
-				return nil
-			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := to.nextDocID()
-			id := int(to.IncreaseID("图片"))
-			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
-			rid := to.addImage(format, m.Data)
-			inln := *r
-			grph := *r.Graphic
-			inln.Graphic = &grph
-			grphdata := *r.Graphic.GraphicData
-			grph.GraphicData = &grphdata
-			pic := *r.Graphic.GraphicData.Pic
-			grphdata.Pic = &pic
-			grphdata.file = to
-			grph.file = to
-			inln.file = to
-
-			inln.DocPr = &WPDocPr{
-				ID:   idn,
-				Name: "图片 " + ids,
-			}
-			pic.NonVisualPicProperties = &PICNonVisualPicProperties{
-				NonVisualDrawingProperties: NonVisualProperties{
-					ID:   id,
-					Name: "图片 " + ids,
-				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
-			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
-			return &inln
-		}
-		return nil
-	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
-	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
-	}
-	return nil
-}
-
 // WPExtent represents the extent of a drawing in a Word document.
 //
 //	CX CY 's unit is English Metric Units, which is 1/914400 inch
@@ -806,7 +731,7 @@ func (p *PICBlipFill) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 // ABlip represents the blip of a picture in a Word document.
 type ABlip struct {
 	XMLName     xml.Name `xml:"a:blip,omitempty"`
-	Embed       string   `xml:"r:embed,attr"`
+	Embed       string   `xml:"r:embed,attr,omitempty"`
 	Cstate      string   `xml:"cstate,attr,omitempty"`
 	AlphaModFix *AAlphaModFix
 }
@@ -1382,64 +1307,6 @@ func (r *WPAnchor) String() string {
 	return "![anch?](unknown)"
 }
 
-func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
-	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
-			if err != nil {
-				return nil
-			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := to.nextDocID()
-			id := int(to.IncreaseID("图片"))
-			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
-			rid := to.addImage(format, m.Data)
-			anch := *r
-			grph := *r.Graphic
-			anch.Graphic = &grph
-			grphdata := *r.Graphic.GraphicData
-			grph.GraphicData = &grphdata
-			pic := *r.Graphic.GraphicData.Pic
-			grphdata.Pic = &pic
-			grphdata.file = to
-			grph.file = to
-			anch.file = to
-
-			anch.DocPr = &WPDocPr{
-				ID:   idn,
-				Name: "图片 " + ids,
-			}
-			pic.NonVisualPicProperties = &PICNonVisualPicProperties{
-				NonVisualDrawingProperties: NonVisualProperties{
-					ID:   id,
-					Name: "图片 " + ids,
-				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
-			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
-			return &anch
-		}
-		return nil
-	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
-	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
-	}
-	return nil
-}
-
 // WPSimplePos represents the position of an object in a Word document.
 type WPSimplePos struct {
 	XMLName xml.Name `xml:"wp:simplePos,omitempty"`
-- 
2.43.0


From d80c5c4eecad4cd870d68581a3539a05f4f6af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:59 +0000
Subject: [PATCH 29/40] fix: the pieces made by SplitByParagraph keep the
 relationships of the parts they carry

---
 structdoc.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index f4c0de8..9015b24 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -247,28 +247,27 @@ newdoclop:
 		ndoc.Document.XMLName.Local = "document"
 		ndoc.Document.Body.file = ndoc
 
-		ndoc.docRelation = Relationships{
-			Xmlns: XMLNS_REL,
-			Relationship: []Relationship{
-				{
-					ID:     "rId1",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/styles`,
-					Target: "styles.xml",
-				},
-				{
-					ID:     "rId2",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme`,
-					Target: "theme/theme1.xml",
-				},
-				{
-					ID:     "rId3",
-					Type:   `http://schemas.openxmlformats.org/officeDocument/2006/relationships/fontTable`,
-					Target: "fontTable.xml",
-				},
-			},
+		// images and links are added on copying
+		ndoc.docRelation.Xmlns = XMLNS_REL
+		ndoc.rID = f.rID
+		linked := make(map[string]struct{}, 64)
+		for _, r := range f.docRelation.Relationship {
+			switch r.Type {
+			case REL_IMAGE:
+				if m, err := f.mediaOf(r.ID); err == nil {
+					linked[m.Name] = struct{}{}
+				}
+			case REL_HYPERLINK:
+			default:
+				ndoc.docRelation.Relationship = append(ndoc.docRelation.Relationship, r)
+			}
+		}
+		// other parts, e.g. headers, refer to the remaining media
+		for _, m := range f.media {
+			if _, ok := linked[m.Name]; !ok {
+				ndoc.addMedia(m)
+			}
 		}
-
-		ndoc.rID = 3
 
 		for i, item := range items {
 			if o, ok := item.(*Paragraph); ok && separator(o) && len(ndoc.Document.Body.Items) > 0 {
-- 
2.43.0


From a0f4c31b9189b5cccb77144fa94c9e111d55b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:28 +0000
Subject: [PATCH 30/40] fix: declare the content types of all media when
 saving, without which the package is broken

---
 pack.go | 76 +++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/pack.go b/pack.go
index c643bba..51f3d94 100644
--- a/pack.go
+++ b/pack.go
@@ -26,6 +26,7 @@ import (
 	"encoding/xml"
 	"io"
 	"os"
+	"strings"
 )
 
 // pack receives a zip file writer (word documents are a zip with multiple xml inside)
@@ -57,6 +58,17 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 		}
 	}
 
+	if r, ok := files[contentTypesFile]; ok {
+		data, err := io.ReadAll(r)
+		if c, ok := r.(io.Closer); ok {
+			_ = c.Close()
+		}
+		if err != nil {
+			return err
+		}
+		files[contentTypesFile] = bytes.NewReader(f.declareMedia(data))
+	}
+
 	files["word/_rels/document.xml.rels"] = marshaller{data: &f.docRelation}
 	files["word/document.xml"] = marshaller{data: &f.Document}
 
@@ -79,6 +91,70 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 	return
 }
 
+const contentTypesFile = "[Content_Types].xml"
+
+// mediaTypes are the content types of media by extension
+var mediaTypes = map[string]string{
+	"bmp":  "image/bmp",
+	"emf":  "image/x-emf",
+	"gif":  "image/gif",
+	"jpeg": "image/jpeg",
+	"jpg":  "image/jpeg",
+	"png":  "image/png",
+	"svg":  "image/svg+xml",
+	"tif":  "image/tiff",
+	"tiff": "image/tiff",
+	"webp": "image/webp",
+	"wmf":  "image/x-wmf",
+}
+
+// declareMedia adds the missing content types of media to [Content_Types].xml
+func (f *Docx) declareMedia(data []byte) []byte {
+	end := bytes.LastIndex(data, []byte("</"))
+	if end < 0 {
+		return data
+	}
+	var types struct {
+		Default []struct {
+			Extension string `xml:",attr"`
+		}
+		Override []struct {
+			PartName string `xml:",attr"`
+		}
+	}
+	if xml.Unmarshal(data, &types) != nil {
+		return data
+	}
+	declared := make(map[string]struct{}, 64)
+	for _, d := range types.Default {
+		declared[strings.ToLower(d.Extension)] = struct{}{}
+	}
+	for _, o := range types.Override {
+		declared[o.PartName] = struct{}{}
+	}
+	prefix := "" // the namespace prefix of </Types>
+	if i := bytes.IndexByte(data[end:], ':'); i > 0 {
+		prefix = string(data[end+2 : end+i+1])
+	}
+	sb := bytes.NewBuffer(make([]byte, 0, len(data)+128))
+	sb.Write(data[:end])
+	for i := range f.media {
+		name := f.media[i].String()
+		ext := strings.ToLower(name[strings.LastIndex(name, ".")+1:])
+		if mediaTypes[ext] == "" {
+			continue
+		}
+		_, isdefault := declared[ext]
+		_, isoverride := declared["/"+name]
+		if !isdefault && !isoverride {
+			declared[ext] = struct{}{}
+			sb.WriteString("<" + prefix + `Default Extension="` + ext + `" ContentType="` + mediaTypes[ext] + `"/>`)
+		}
+	}
+	sb.Write(data[end:])
+	return sb.Bytes()
+}
+
 type marshaller struct {
 	data interface{}
 	io.Reader
-- 
2.43.0


From 59742a17a2a3771d8a5a691bc12295bb5e7ef331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:29 +0000
Subject: [PATCH 31/40] fix: report an error on adding an image of no size
 instead of panicking

---
 apidrawing.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index f1275fe..b71ac5b 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -34,6 +34,9 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, imgsz.ErrFormat
+	}
 	idn := p.file.nextDocID()
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -141,6 +144,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, imgsz.ErrFormat
+	}
 	idn := p.file.nextDocID()
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
-- 
2.43.0


From bf8f474ee5abf59cf757dec314350cd495955e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 32/40] fix: read a tab of a run with its attributes and skip
 its content

---
 structrun.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structrun.go b/structrun.go
index 6268646..b04ac83 100644
--- a/structrun.go
+++ b/structrun.go
@@ -115,7 +115,12 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 		}
 		child = &value
 	case "tab":
-		child = &Tab{}
+		var value Tab
+		err = d.DecodeElement(&value, &tt)
+		if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+			return nil, err
+		}
+		child = &value
 	case "br":
 		var value BarterRabbet
 		err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From f0369ac93b0a2bf4f5b6f9faae70431e0251be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:01 +0000
Subject: [PATCH 33/40] fix: read the fallback of a mc:AlternateContent without
 supported choice

---
 structrun.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structrun.go b/structrun.go
index b04ac83..8f9d042 100644
--- a/structrun.go
+++ b/structrun.go
@@ -156,12 +156,16 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 			case xml.EndElement: // no supported choice
 				break altcont
 			case xml.StartElement:
-				if ttt.Name.Local == "Choice" {
+				switch ttt.Name.Local {
+				case "Choice":
 					switch getAtt(ttt.Attr, "Requires") {
 					case "wps", "wpc", "wpg":
 						child, err = r.parseChoice(d)
 						break altcont
 					}
+				case "Fallback": // there was no supported choice
+					child, err = r.parseChoice(d)
+					break altcont
 				}
 				err = d.Skip() // skip unsupported tags
 				if err != nil {
-- 
2.43.0


From c455864aeadffbd075538a3ab80e15ca6e31ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:38 +0000
Subject: [PATCH 34/40] fix: render links and pictures made by hand, which
 belong to no document

---
 link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/link.go b/link.go
index 46718f8..09876c5 100644
--- a/link.go
+++ b/link.go
@@ -66,6 +66,9 @@ func (f *Docx) addImageRelation(m Media) string {
 
 // ReferTarget gets the target for a reference
 func (f *Docx) ReferTarget(id string) (string, error) {
+	if f == nil { // elements made by hand belong to no document
+		return "", ErrRefIDNotFound
+	}
 	for _, a := range f.docRelation.Relationship {
 		if a.ID == id {
 			return a.Target, nil
-- 
2.43.0


From d6e5e89bff858e31218d21bbe41a66bb695289b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 35/40] fix: read the name of a picture that has no id

---
 structdrawing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structdrawing.go b/structdrawing.go
index a6de71f..3925874 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -610,6 +610,7 @@ func (p *PICNonVisualPicProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElem
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "cNvPr":
+				p.NonVisualDrawingProperties.Name = getAtt(tt.Attr, "name")
 				v := getAtt(tt.Attr, "id")
 				if v == "" {
 					continue
@@ -618,7 +619,6 @@ func (p *PICNonVisualPicProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElem
 				if err != nil {
 					return err
 				}
-				p.NonVisualDrawingProperties.Name = getAtt(tt.Attr, "name")
 			case "cNvPicPr":
 				err = d.DecodeElement(&p.CNvPicPr, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
-- 
2.43.0


From f98220a3f94276fb4dd418c5a64333830a33fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 36/40] fix: declare media of unknown types too, in a fixed
 order

---
 pack.go | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/pack.go b/pack.go
index 51f3d94..ca0e0a8 100644
--- a/pack.go
+++ b/pack.go
@@ -26,6 +26,8 @@ import (
 	"encoding/xml"
 	"io"
 	"os"
+	"path"
+	"sort"
 	"strings"
 )
 
@@ -76,8 +78,8 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 		files[m.String()] = bytes.NewReader(m.Data)
 	}
 
-	for path, r := range files {
-		w, err := zipWriter.Create(path)
+	for name, r := range files {
+		w, err := zipWriter.Create(name)
 		if err != nil {
 			return err
 		}
@@ -136,25 +138,42 @@ func (f *Docx) declareMedia(data []byte) []byte {
 	if i := bytes.IndexByte(data[end:], ':'); i > 0 {
 		prefix = string(data[end+2 : end+i+1])
 	}
-	sb := bytes.NewBuffer(make([]byte, 0, len(data)+128))
-	sb.Write(data[:end])
+	missing := make([]string, 0, 8)
 	for i := range f.media {
 		name := f.media[i].String()
-		ext := strings.ToLower(name[strings.LastIndex(name, ".")+1:])
-		if mediaTypes[ext] == "" {
-			continue
-		}
+		ext := strings.ToLower(strings.TrimPrefix(path.Ext(name), "."))
 		_, isdefault := declared[ext]
 		_, isoverride := declared["/"+name]
-		if !isdefault && !isoverride {
-			declared[ext] = struct{}{}
-			sb.WriteString("<" + prefix + `Default Extension="` + ext + `" ContentType="` + mediaTypes[ext] + `"/>`)
+		if isdefault || isoverride {
+			continue
+		}
+		kind := mediaTypes[ext]
+		if kind == "" {
+			kind = "application/octet-stream"
 		}
+		if ext == "" {
+			missing = append(missing, "<"+prefix+`Override PartName="/`+escape(name)+`" ContentType="`+kind+`"/>`)
+			continue
+		}
+		declared[ext] = struct{}{}
+		missing = append(missing, "<"+prefix+`Default Extension="`+escape(ext)+`" ContentType="`+kind+`"/>`)
+	}
+	sort.Strings(missing)
+	sb := bytes.NewBuffer(make([]byte, 0, len(data)+128))
+	sb.Write(data[:end])
+	for _, m := range missing {
+		sb.WriteString(m)
 	}
 	sb.Write(data[end:])
 	return sb.Bytes()
 }
 
+func escape(s string) string {
+	sb := bytes.NewBuffer(make([]byte, 0, len(s)))
+	_ = xml.EscapeText(sb, []byte(s))
+	return sb.String()
+}
+
 type marshaller struct {
 	data interface{}
 	io.Reader
-- 
2.43.0


From e86be1cfbd7d914bc01b27d111573c2d242c9710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 37/40] fix: a document made by LoadBodyItems does not append
 to the given slices

---
 docx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index 2c5491b..c15c321 100644
--- a/docx.go
+++ b/docx.go
@@ -116,7 +116,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 			XMLWPG: XMLNS_WPG,
 			XMLA:   XMLNS_DRAWINGML_MAIN,
 			XMLPIC: XMLNS_DRAWINGML_PICTURE,
-			Body:   Body{Items: items},
+			Body:   Body{Items: append(make([]interface{}, 0, 64), items...)}, // the slice is of the caller
 		},
 		docRelation: Relationships{
 			Xmlns: XMLNS_REL,
@@ -138,7 +138,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 				},
 			},
 		},
-		media:        media,
+		media:        append(make([]Media, 0, 64), media...),
 		mediaNameIdx: make(map[string]int, 64),
 		rID:          3,
 		slowIDs:      make(map[string]uintptr, 64),
-- 
2.43.0


From 5152d344f1b391223faf7b1a543a2a08e8b9fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:31 +0000
Subject: [PATCH 38/40] fix: close the template files whose names media of the
 document have too

---
 pack.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pack.go b/pack.go
index ca0e0a8..e495af2 100644
--- a/pack.go
+++ b/pack.go
@@ -36,8 +36,9 @@ import (
 // others from the actual in-memory structure
 func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 	files := make(map[string]io.Reader, 64)
+	opened := make([]io.Reader, 0, 64)
 	defer func() {
-		for _, r := range files {
+		for _, r := range opened {
 			if c, ok := r.(io.Closer); ok {
 				_ = c.Close()
 			}
@@ -50,6 +51,7 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 			if err != nil {
 				return
 			}
+			opened = append(opened, files[name])
 		}
 	} else {
 		for _, name := range f.tmpfslst {
@@ -57,14 +59,12 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 			if err != nil {
 				return
 			}
+			opened = append(opened, files[name])
 		}
 	}
 
 	if r, ok := files[contentTypesFile]; ok {
 		data, err := io.ReadAll(r)
-		if c, ok := r.(io.Closer); ok {
-			_ = c.Close()
-		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 108fb6ea54e5733267b778dfe12742f633acbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:22 +0000
Subject: [PATCH 39/40] fix: AddTable and AddTableTwips do not write the
 default colors into the given struct

---
 apitable.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/apitable.go b/apitable.go
index 4e4c321..c334e83 100644
--- a/apitable.go
+++ b/apitable.go
@@ -50,9 +50,11 @@ func (f *Docx) AddTable(
 		}
 	}
 
-	if borderColors == nil {
-		borderColors = new(APITableBorderColors)
+	var colors APITableBorderColors // the defaults do not go into the caller's struct
+	if borderColors != nil {
+		colors = *borderColors
 	}
+	borderColors = &colors
 	borderColors.applyDefault()
 
 	wTableWidth := &WTableWidth{Type: "auto"}
@@ -122,9 +124,11 @@ func (f *Docx) AddTableTwips(
 		}
 	}
 
-	if borderColors == nil {
-		borderColors = new(APITableBorderColors)
+	var colors APITableBorderColors // the defaults do not go into the caller's struct
+	if borderColors != nil {
+		colors = *borderColors
 	}
+	borderColors = &colors
 	borderColors.applyDefault()
 
 	wTableWidth := &WTableWidth{Type: "auto"}
-- 
2.43.0


From 7bccf421aae7a93a0ee7cc5d41c3fa3d2d66140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:24 +0000
Subject: [PATCH 40/40] fix: MergeSamePropRunsOf ignores names that are not
 those of properties instead of panicking

---
 structtext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structtext.go b/structtext.go
index eddb5e2..70a6523 100644
--- a/structtext.go
+++ b/structtext.go
@@ -222,6 +222,9 @@ func MergeSamePropRunsOf(name ...string) RunMergeRule {
 		for _, n := range name {
 			x1 := rr1.FieldByName(n)
 			x2 := rr2.FieldByName(n)
+			if x1.Kind() != reflect.Ptr {
+				continue // not the name of a property
+			}
 			if x1.IsZero() && x2.IsZero() {
 				continue
 			}
-- 
2.43.0

