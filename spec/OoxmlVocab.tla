------------------------------ MODULE OoxmlVocab ------------------------------
(* The vocabulary of WordprocessingML / DrawingML that go-docx supports: for    *)
(* every element type of the package, which XML attributes and children carry   *)
(* which field.  It is the single source for                                    *)
(*   - the reader of OoxmlCodec (what a saved document.xml says, what a foreign *)
(*     document.xml must be parsed to),                                         *)
(*   - the generators of the conformance driver (exported to it as JSON).       *)
(*                                                                              *)
(* a : attributes   <<xml name, field, kind>>                                   *)
(*       kind "s" string, "i" integer, "b" on/off, "b1" on/off, on if absent    *)
(* k : children     <<xml name, field, type, mode>>                             *)
(*       mode "o" optional child, "v" part that is always there,                *)
(*       "oa" optional child that says nothing without its attribute,           *)
(*       "f" flag (presence only), "fo" flag with on/off value,                 *)
(*       "s" text content as a string field, "n" text content as an integer     *)
(* l : the children kept as an ordered list  <<xml name, type>>                 *)
(* txt : the character data is the field Text                                   *)
EXTENDS Sequences, TLC

V(at, kd, ls) == [a |-> at, k |-> kd, l |-> ls, txt |-> FALSE]
VText(at)     == [a |-> at, k |-> << >>, l |-> << >>, txt |-> TRUE]
WVal          == << <<"w:val", "Val", "s">> >>
None          == << >>

Vocab ==
 [ Body |-> V(None, None, << <<"w:p", "Paragraph">>, <<"w:tbl", "Table">>, <<"w:sectPr", "SectPr">> >>),
   (* ---------------------------------------------------------- sections *)
   SectPr |-> V(None, << <<"w:pgSz","PgSz","PgSz","o">>, <<"w:pgMar","PgMar","PgMar","o">>,
                         <<"w:cols","Cols","Cols","o">>, <<"w:docGrid","DocGrid","DocGrid","o">> >>, None),
   PgSz |-> V(<< <<"w:w","W","i">>, <<"w:h","H","i">> >>, None, None),
   PgMar |-> V(<< <<"w:top","Top","i">>, <<"w:left","Left","i">>, <<"w:bottom","Bottom","i">>, <<"w:right","Right","i">>,
                  <<"w:header","Header","i">>, <<"w:footer","Footer","i">>, <<"w:gutter","Gutter","i">> >>, None, None),
   Cols |-> V(<< <<"w:space","Space","i">> >>, None, None),
   DocGrid |-> V(<< <<"w:type","Type","s">>, <<"w:linePitch","LinePitch","i">> >>, None, None),
   (* -------------------------------------------------------- paragraphs *)
   Paragraph |-> V(None, << <<"w:pPr","Properties","ParagraphProperties","o">> >>,
                   << <<"w:hyperlink","Hyperlink">>, <<"w:r","Run">>, <<"w:rPr","RunProperties">> >>),
   ParagraphProperties |->
     V(None, << <<"w:tabs","Tabs","Tabs","o">>, <<"w:spacing","Spacing","Spacing","o">>,
                <<"w:numPr","NumProperties","NumProperties","o">>, <<"w:ind","Ind","Ind","o">>,
                <<"w:jc","Justification","Justification","o">>, <<"w:shd","Shade","Shade","o">>,
                <<"w:kern","Kern","Kern","oa">>, <<"w:pStyle","Style","Style","o">>,
                <<"w:textAlignment","TextAlignment","TextAlignment","o">>,
                <<"w:adjustRightInd","AdjustRightInd","AdjustRightInd","o">>,
                <<"w:snapToGrid","SnapToGrid","SnapToGrid","o">>, <<"w:kinsoku","Kinsoku","Kinsoku","o">>,
                <<"w:overflowPunct","OverflowPunct","OverflowPunct","o">>,
                <<"w:rPr","RunProperties","RunProperties","o">> >>, None),
   Tabs |-> V(None, None, << <<"w:tab","Tab">> >>),
   Tab |-> V(<< <<"w:val","Val","s">>, <<"w:pos","Position","i">> >>, None, None),
   Spacing |-> V(<< <<"w:val","Val","i">>, <<"w:beforeLines","BeforeLines","i">>, <<"w:before","Before","i">>,
                    <<"w:line","Line","i">>, <<"w:lineRule","LineRule","s">> >>, None, None),
   NumProperties |-> V(None, << <<"w:numId","NumID","NumID","o">>, <<"w:ilvl","Ilvl","Ilevel","o">> >>, None),
   NumID |-> V(WVal, None, None),
   Ilevel |-> V(WVal, None, None),
   Ind |-> V(<< <<"w:leftChars","LeftChars","i">>, <<"w:left","Left","i">>, <<"w:firstLineChars","FirstLineChars","i">>,
                <<"w:firstLine","FirstLine","i">>, <<"w:hangingChars","HangingChars","i">>, <<"w:hanging","Hanging","i">> >>, None, None),
   Justification |-> V(WVal, None, None),
   Shade |-> V(<< <<"w:val","Val","s">>, <<"w:color","Color","s">>, <<"w:fill","Fill","s">>,
                  <<"w:themeFill","ThemeFill","s">>, <<"w:themeFillTint","ThemeFillTint","s">> >>, None, None),
   Kern |-> V(<< <<"w:val","Val","i">> >>, None, None),
   Style |-> V(WVal, None, None),
   TextAlignment |-> V(WVal, None, None),
   AdjustRightInd |-> V(<< <<"w:val","Val","b1">> >>, None, None),
   SnapToGrid |-> V(<< <<"w:val","Val","b1">> >>, None, None),
   Kinsoku |-> V(<< <<"w:val","Val","b1">> >>, None, None),
   OverflowPunct |-> V(<< <<"w:val","Val","b1">> >>, None, None),
   (* -------------------------------------------------------------- runs *)
   Hyperlink |-> V(<< <<"r:id","ID","s">>, <<"w:anchor","Anchor","s">> >>, << <<"w:r","Run","Run","v">> >>, None),
   Run |-> V(<< <<"xml:space","Space","s">> >>,
             << <<"w:rPr","RunProperties","RunProperties","o">>, <<"w:instrText","InstrText","","s">> >>,
             << <<"w:t","Text">>, <<"w:drawing","Drawing">>, <<"w:tab","Tab">>, <<"w:br","BarterRabbet">> >>),
   RunProperties |->
     V(None, << <<"w:rFonts","Fonts","RunFonts","o">>, <<"w:b","Bold","Bold","o">>, <<"w:iCs","ICs","Flag","fo">>,
                <<"w:i","Italic","Italic","o">>, <<"w:highlight","Highlight","Highlight","o">>,
                <<"w:color","Color","Color","o">>, <<"w:sz","Size","Size","o">>, <<"w:szCs","SizeCs","SizeCs","o">>,
                <<"w:spacing","Spacing","Spacing","o">>, <<"w:rStyle","RunStyle","RunStyle","o">>,
                <<"w:pStyle","Style","Style","o">>, <<"w:shd","Shade","Shade","o">>, <<"w:kern","Kern","Kern","oa">>,
                <<"w:u","Underline","Underline","o">>, <<"w:vertAlign","VertAlign","VertAlign","o">>,
                <<"w:strike","Strike","Strike","o">> >>, None),
   RunFonts |-> V(<< <<"w:ascii","ASCII","s">>, <<"w:eastAsia","EastAsia","s">>, <<"w:hAnsi","HAnsi","s">>, <<"w:hint","Hint","s">> >>, None, None),
   Bold |-> V(WVal, None, None),
   Italic |-> V(WVal, None, None),
   Highlight |-> V(WVal, None, None),
   Color |-> V(WVal, None, None),
   Size |-> V(WVal, None, None),
   SizeCs |-> V(WVal, None, None),
   RunStyle |-> V(WVal, None, None),
   Underline |-> V(WVal, None, None),
   VertAlign |-> V(WVal, None, None),
   Strike |-> V(WVal, None, None),
   Text |-> VText(<< <<"xml:space","XMLSpace","s">> >>),
   BarterRabbet |-> V(<< <<"w:type","Type","s">> >>, None, None),
   (* ---------------------------------------------------------- drawings *)
   Drawing |-> V(None, << <<"wp:inline","Inline","WPInline","o">>, <<"wp:anchor","Anchor","WPAnchor","o">> >>, None),
   WPInline |-> V(<< <<"distT","DistT","i">>, <<"distB","DistB","i">>, <<"distL","DistL","i">>, <<"distR","DistR","i">> >>,
                  << <<"wp:extent","Extent","WPExtent","o">>, <<"wp:effectExtent","EffectExtent","WPEffectExtent","o">>,
                     <<"wp:docPr","DocPr","WPDocPr","o">>, <<"wp:cNvGraphicFramePr","CNvGraphicFramePr","WPCNvGraphicFramePr","o">>,
                     <<"a:graphic","Graphic","AGraphic","o">> >>, None),
   WPAnchor |-> V(<< <<"distT","DistT","i">>, <<"distB","DistB","i">>, <<"distL","DistL","i">>, <<"distR","DistR","i">>,
                     <<"simplePos","SimplePos","b">>, <<"relativeHeight","RelativeHeight","i">>, <<"behindDoc","BehindDoc","b">>,
                     <<"locked","Locked","b">>, <<"layoutInCell","LayoutInCell","b">>, <<"allowOverlap","AllowOverlap","b">> >>,
                  << <<"wp:simplePos","SimplePosXY","WPSimplePos","o">>, <<"wp:positionH","PositionH","WPPositionH","o">>,
                     <<"wp:positionV","PositionV","WPPositionV","o">>,
                     <<"wp:extent","Extent","WPExtent","o">>, <<"wp:effectExtent","EffectExtent","WPEffectExtent","o">>,
                     <<"wp:wrapNone","WrapNone","Flag","f">>, <<"wp:wrapSquare","WrapSquare","WPWrapSquare","o">>,
                     <<"wp:docPr","DocPr","WPDocPr","o">>, <<"wp:cNvGraphicFramePr","CNvGraphicFramePr","WPCNvGraphicFramePr","o">>,
                     <<"a:graphic","Graphic","AGraphic","o">> >>, None),
   WPExtent |-> V(<< <<"cx","CX","i">>, <<"cy","CY","i">> >>, None, None),
   WPEffectExtent |-> V(<< <<"l","L","i">>, <<"t","T","i">>, <<"r","R","i">>, <<"b","B","i">> >>, None, None),
   WPDocPr |-> V(<< <<"id","ID","i">>, <<"name","Name","s">> >>, None, None),
   WPSimplePos |-> V(<< <<"x","X","i">>, <<"y","Y","i">> >>, None, None),
   WPPositionH |-> V(<< <<"relativeFrom","RelativeFrom","s">> >>, << <<"wp:posOffset","PosOffset","","n">> >>, None),
   WPPositionV |-> V(<< <<"relativeFrom","RelativeFrom","s">> >>, << <<"wp:posOffset","PosOffset","","n">> >>, None),
   WPWrapSquare |-> V(<< <<"wrapText","WrapText","s">> >>, None, None),
   WPCNvGraphicFramePr |-> V(None, << <<"a:graphicFrameLocks","Locks","AGraphicFrameLocks","v">> >>, None),
   AGraphicFrameLocks |-> V(<< <<"noChangeAspect","NoChangeAspect","b">> >>, None, None),
   AGraphic |-> V(None, << <<"a:graphicData","GraphicData","AGraphicData","o">> >>, None),
   AGraphicData |-> V(<< <<"uri","URI","s">> >>,
                      << <<"pic:pic","Pic","Picture","o">>, <<"wps:wsp","Shape","WordprocessingShape","o">>,
                         <<"wpc:wpc","Canvas","WordprocessingCanvas","o">>, <<"wpg:wgp","Group","WordprocessingGroup","o">> >>, None),
   (* ---------------------------------------------------------- pictures *)
   Picture |-> V(None, << <<"pic:nvPicPr","NonVisualPicProperties","PICNonVisualPicProperties","o">>,
                          <<"pic:blipFill","BlipFill","PICBlipFill","o">>, <<"pic:spPr","SpPr","PICSpPr","o">> >>, None),
   PICNonVisualPicProperties |-> V(None, << <<"pic:cNvPr","NonVisualDrawingProperties","NonVisualProperties","v">>,
                                            <<"pic:cNvPicPr","CNvPicPr","PicCNvPicPr","v">> >>, None),
   NonVisualProperties |-> V(<< <<"id","ID","i">>, <<"name","Name","s">> >>, None, None),
   PicCNvPicPr |-> V(None, << <<"a:picLocks","Locks","APicLocks","oa">> >>, None),
   APicLocks |-> V(<< <<"noChangeAspect","NoChangeAspect","b">> >>, None, None),
   PICBlipFill |-> V(None, << <<"a:blip","Blip","ABlip","v">>, <<"a:stretch","Stretch","AStretch","v">> >>, None),
   ABlip |-> V(<< <<"r:embed","Embed","s">>, <<"cstate","Cstate","s">> >>, << <<"a:alphaModFix","AlphaModFix","AAlphaModFix","oa">> >>, None),
   AAlphaModFix |-> V(<< <<"amt","Amount","i">> >>, None, None),
   AStretch |-> V(None, << <<"a:fillRect","FillRect","AFillRect","o">> >>, None),
   AFillRect |-> V(None, None, None),
   PICSpPr |-> V(None, << <<"a:xfrm","Xfrm","AXfrm","v">>, <<"a:prstGeom","PrstGeom","APrstGeom","o">> >>, None),
   AXfrm |-> V(<< <<"rot","Rot","i">>, <<"flipH","FlipH","b">>, <<"flipV","FlipV","b">> >>,
               << <<"a:off","Off","AOff","v">>, <<"a:ext","Ext","AExt","v">>, <<"a:chOff","ChOff","AOff","o">>, <<"a:chExt","ChExt","AExt","o">> >>, None),
   AOff |-> V(<< <<"x","X","i">>, <<"y","Y","i">> >>, None, None),
   AExt |-> V(<< <<"cx","CX","i">>, <<"cy","CY","i">> >>, None, None),
   APrstGeom |-> V(<< <<"prst","Prst","s">> >>, << <<"a:avLst","AvLst","Flag","f">> >>, None),
   (* ------------------------------------------------------------ shapes *)
   WordprocessingShape |->
     V(None, << <<"wps:cNvPr","CNvPr","NonVisualProperties","o">>, <<"wps:cNvCnPr","CNvCnPr","WPSCNvCnPr","o">>,
                <<"wps:cNvSpPr","CNvSpPr","WPSCNvSpPr","o">>, <<"wps:spPr","SpPr","ShapeProperties","o">>,
                <<"wps:txbx","TextBox","WPSTextBox","o">>, <<"wps:bodyPr","BodyPr","WPSBodyPr","o">> >>, None),
   WPSCNvCnPr |-> V(None, << <<"a:cxnSpLocks","ConnShapeLocks","Flag","f">> >>, None),
   WPSCNvSpPr |-> V(<< <<"txBox","TxBox","b">> >>, << <<"a:spLocks","SPLocks","ASPLocks","o">> >>, None),
   ASPLocks |-> V(<< <<"noChangeArrowheads","NoChangeArrowheads","b">> >>, None, None),
   ShapeProperties |-> V(<< <<"bwMode","BWMode","s">> >>,
                         << <<"a:xfrm","Xfrm","AXfrm","v">>, <<"a:prstGeom","PrstGeom","APrstGeom","v">>,
                            <<"a:solidFill","SolidFill","ASolidFill","o">>, <<"a:blipFill","BlipFill","ABlipFill","o">>,
                            <<"a:noFill","NoFill","Flag","f">>, <<"a:ln","Line","ALine","o">> >>, None),
   ASolidFill |-> V(None, << <<"a:srgbClr","SrgbClr","ASrgbClr","o">> >>, None),
   ASrgbClr |-> V(<< <<"val","Val","s">> >>, None, None),
   ABlipFill |-> V(<< <<"dpi","DPI","i">>, <<"rotWithShape","RotWithShape","b">> >>,
                   << <<"a:blip","Blip","ABlip","o">>, <<"a:srcRect","SrcRect","ASrcRect","o">>, <<"a:tile","Tile","ATile","o">> >>, None),
   ASrcRect |-> V(None, None, None),
   ATile |-> V(<< <<"tx","TX","i">>, <<"ty","TY","i">>, <<"sx","SX","i">>, <<"sy","SY","i">>, <<"flip","Flip","s">>, <<"algn","Algn","s">> >>, None, None),
   ALine |-> V(<< <<"w","W","i">>, <<"cap","Cap","s">>, <<"cmpd","Compound","s">>, <<"algn","Align","s">> >>,
               << <<"a:noFill","NoFill","Flag","f">>, <<"a:solidFill","SolidFill","ASolidFill","o">>, <<"a:prstDash","PrstDash","APrstDash","o">>,
                  <<"a:miter","Miter","AMiter","o">>, <<"a:round","Round","Flag","f">>,
                  <<"a:headEnd","HeadEnd","AHeadEnd","o">>, <<"a:tailEnd","TailEnd","ATailEnd","o">> >>, None),
   APrstDash |-> V(<< <<"val","Val","s">> >>, None, None),
   AMiter |-> V(<< <<"lim","Limit","s">> >>, None, None),
   AHeadEnd |-> V(<< <<"type","Type","s">>, <<"w","W","s">>, <<"len","Len","s">> >>, None, None),
   ATailEnd |-> V(<< <<"type","Type","s">>, <<"w","W","s">>, <<"len","Len","s">> >>, None, None),
   WPSTextBox |-> V(None, << <<"w:txbxContent","Content","WTextBoxContent","o">> >>, None),
   WTextBoxContent |-> V(None, None, << <<"w:p","Paragraph">> >>),
   WPSBodyPr |-> V(<< <<"rot","Rot","i">>, <<"vert","Vert","s">>, <<"wrap","Wrap","s">>, <<"lIns","LIns","i">>, <<"tIns","TIns","i">>,
                      <<"rIns","RIns","i">>, <<"bIns","BIns","i">>, <<"anchor","Anchor","s">>, <<"anchorCtr","AnchorCtr","b">>, <<"upright","Upright","b">> >>,
                   << <<"a:noAutofit","NoAutofit","Flag","f">> >>, None),
   (* ------------------------------------------------- canvases and groups *)
   WordprocessingCanvas |-> V(None, << <<"wpc:bg","Background","WPCBackground","o">>, <<"wpc:whole","Whole","WPCWhole","o">> >>,
                              << <<"wps:wsp","WordprocessingShape">>, <<"pic:pic","Picture">>, <<"wpg:wgp","WordprocessingGroup">> >>),
   WPCBackground |-> V(None, << <<"a:noFill","NoFill","Flag","f">> >>, None),
   WPCWhole |-> V(None, << <<"a:ln","Line","ALine","o">> >>, None),
   WordprocessingGroup |-> V(None, << <<"wpg:cNvGrpSpPr","CNvGrpSpPr","WPGcNvGrpSpPr","o">>, <<"wpg:grpSpPr","GroupShapeProperties","ShapeProperties","o">> >>,
                             << <<"pic:pic","Picture">>, <<"wps:wsp","WordprocessingShape">>, <<"wpc:wpc","WordprocessingCanvas">>, <<"wpg:grpSp","WPGGroupShape">> >>),
   WPGcNvGrpSpPr |-> V(None, << <<"a:grpSpLocks","Locks","AGroupShapeLocks","o">> >>, None),
   AGroupShapeLocks |-> V(None, None, None),
   WPGGroupShape |-> V(None, << <<"wpg:cNvPr","CNvPr","NonVisualProperties","o">>, <<"wpg:cNvGrpSpPr","CNvGrpSpPr","WPGcNvGrpSpPr","o">>,
                                <<"wpg:grpSpPr","GroupShapeProperties","ShapeProperties","o">> >>,
                       << <<"pic:pic","Picture">>, <<"wps:wsp","WordprocessingShape">>, <<"wpc:wpc","WordprocessingCanvas">> >>),
   (* ------------------------------------------------------------ tables *)
   Table |-> V(None, << <<"w:tblPr","TableProperties","WTableProperties","o">>, <<"w:tblGrid","TableGrid","WTableGrid","o">> >>,
               << <<"w:tr","WTableRow">> >>),
   WTableProperties |->
     V(None, << <<"w:tblpPr","Position","WTablePositioningProperties","o">>, <<"w:tblStyle","Style","WTableStyle","o">>,
                <<"w:tblW","Width","WTableWidth","o">>, <<"w:jc","Justification","Justification","o">>,
                <<"w:tblBorders","TableBorders","WTableBorders","o">>, <<"w:tblLook","Look","WTableLook","o">> >>, None),
   WTablePositioningProperties |->
     V(<< <<"w:leftFromText","LeftFromText","i">>, <<"w:rightFromText","RightFromText","i">>, <<"w:vertAnchor","VertAnchor","s">>,
          <<"w:horzAnchor","HorzAnchor","s">>, <<"w:tblpXSpec","TblpXSpec","s">>, <<"w:tblpYSpec","TblpYSpec","s">>,
          <<"w:tblpX","TblpX","i">>, <<"w:tblpY","TblpY","i">> >>, None, None),
   WTableStyle |-> V(WVal, None, None),
   WTableWidth |-> V(<< <<"w:w","W","i">>, <<"w:type","Type","s">> >>, None, None),
   WTableLook |-> V(<< <<"w:val","Val","s">>, <<"w:firstRow","FirstRow","b">>, <<"w:lastRow","LastRow","b">>, <<"w:firstColumn","FirstCol","b">>,
                       <<"w:lastColumn","LastCol","b">>, <<"w:noHBand","NoHBand","b">>, <<"w:noVBand","NoVBand","b">> >>, None, None),
   WTableGrid |-> V(None, None, << <<"w:gridCol","WGridCol">> >>),
   WGridCol |-> V(<< <<"w:w","W","i">> >>, None, None),
   WTableRow |-> V(None, << <<"w:trPr","TableRowProperties","WTableRowProperties","o">> >>, << <<"w:tc","WTableCell">> >>),
   WTableRowProperties |-> V(None, << <<"w:trHeight","TableRowHeight","WTableRowHeight","o">>, <<"w:jc","Justification","Justification","o">> >>, None),
   WTableRowHeight |-> V(<< <<"w:hRule","Rule","s">>, <<"w:val","Val","i">> >>, None, None),
   WTableCell |-> V(None, << <<"w:tcPr","TableCellProperties","WTableCellProperties","o">> >>, << <<"w:p","Paragraph">> >>),
   WTableCellProperties |->
     V(None, << <<"w:tcW","TableCellWidth","WTableCellWidth","o">>, <<"w:vMerge","VMerge","WvMerge","o">>, <<"w:gridSpan","GridSpan","WGridSpan","o">>,
                <<"w:tcBorders","TableBorders","WTableBorders","o">>, <<"w:shd","Shade","Shade","o">>, <<"w:vAlign","VAlign","WVerticalAlignment","o">> >>, None),
   WTableCellWidth |-> V(<< <<"w:w","W","i">>, <<"w:type","Type","s">> >>, None, None),
   WvMerge |-> V(WVal, None, None),
   WGridSpan |-> V(<< <<"w:val","Val","i">> >>, None, None),
   WVerticalAlignment |-> V(WVal, None, None),
   WTableBorders |-> V(None, << <<"w:top","Top","WTableBorder","o">>, <<"w:left","Left","WTableBorder","o">>, <<"w:bottom","Bottom","WTableBorder","o">>,
                                <<"w:right","Right","WTableBorder","o">>, <<"w:insideH","InsideH","WTableBorder","o">>, <<"w:insideV","InsideV","WTableBorder","o">> >>, None),
   WTableBorder |-> V(<< <<"w:val","Val","s">>, <<"w:sz","Size","i">>, <<"w:space","Space","i">>, <<"w:color","Color","s">> >>, None, None),
   Flag |-> V(None, None, None)
 ]

(* the attributes that the schema demands of an element, whatever their value *)
Required ==
  LET val(S) == [t \in S |-> {"w:val"}]
      ext == [t \in {"wp:extent", "a:ext", "a:chExt"} |-> {"cx", "cy"}]
      off == [t \in {"a:off", "a:chOff", "wp:simplePos"} |-> {"x", "y"}]
      pos == [t \in {"wp:positionH", "wp:positionV"} |-> {"relativeFrom"}]
      nv  == [t \in {"pic:cNvPr", "wps:cNvPr", "wpg:cNvPr"} |-> {"id", "name"}]
      wml == val({"w:jc", "w:numId", "w:ilvl", "w:pStyle", "w:rStyle", "w:color", "w:sz", "w:szCs", "w:vertAlign", "w:textAlignment"})
  IN wml @@ ext @@ off @@ pos @@ nv
     @@ ("wp:anchor" :> {"relativeHeight", "behindDoc", "locked", "layoutInCell", "allowOverlap"})
     @@ ("wp:effectExtent" :> {"l", "t", "r", "b"}) @@ ("wp:docPr" :> {"id"}) @@ ("a:graphicData" :> {"uri"})
     @@ ("wp:wrapSquare" :> {"wrapText"}) @@ ("a:prstGeom" :> {"prst"})
===============================================================================
