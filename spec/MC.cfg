CONSTANTS
  Ops = {"AddParagraph", "AddLink", "AddPic", "Append", "Split", "Load"}
  Depth = 3
  MaxDocs = 3
  MaxItems = 4
  MaxKids = 3
  Start = "two"
  Emit = FALSE
SPECIFICATION Spec
VIEW View0
INVARIANTS Accepted NoDangling UniqueRels UniqueDrawings LinksTrue PicsTrue RoundTrip ValidPackages SplitLaw AppendLaw SplitAppendLaw MergeLaw DropLaw SetterLaw
CHECK_DEADLOCK FALSE
