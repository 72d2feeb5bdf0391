------------------------------- MODULE Schema -------------------------------
(* What the elements of the parts of a file may contain, for every element   *)
(* the library writes: which children in which order, which of them more     *)
(* than once and which at least once, and which attributes it may and must   *)
(* have (ECMA-376 part 1 and [MS-XLSX], transitional).                        *)
(*                                                                            *)
(* An element is named by its prefix and name; where its content depends on  *)
(* the element around it also by that ("x:font<x:dxf"), and extensions by    *)
(* their URI.                                                                 *)
EXTENDS VBase

\* One rank of the children: a choice of names, whether several of them may
\* follow each other, whether there must be one.
One(names) == [names |-> names, many |-> FALSE, need |-> FALSE]
Must(names) == [names |-> names, many |-> FALSE, need |-> TRUE]
Many(names) == [names |-> names, many |-> TRUE, need |-> FALSE]
Some(names) == [names |-> names, many |-> TRUE, need |-> TRUE]

\* Children in the order of the ranks.
El(key, ranks, attrs, must) == [key |-> key, ranks |-> ranks, bag |-> {}, attrs |-> attrs, must |-> must]
\* Children in any order, each once at most.
Bag(key, names, attrs, must) == [key |-> key, ranks |-> << >>, bag |-> names, attrs |-> attrs, must |-> must]

Elements == <<
  El("x:workbook", <<One({"x:fileVersion"}), One({"x:fileSharing"}), One({"x:workbookPr"}), One({"x:workbookProtection"}), One({"x:bookViews"}), Must({"x:sheets"}), One({"x:functionGroups"}), One({"x:externalReferences"}), One({"x:definedNames"}), One({"x:calcPr"}), One({"x:oleSize"}), One({"x:extLst"})>>, {"conformance", "mc:Ignorable"}, {}),
  El("x:fileVersion", << >>, {"appName", "lastEdited", "lowestEdited", "rupBuild", "codeName"}, {}),
  El("x:fileSharing", << >>, {"readOnlyRecommended", "userName", "reservationPassword"}, {}),
  El("x:workbookPr", << >>, {"date1904", "showObjects", "showBorderUnselectedTables", "filterPrivacy", "codeName", "defaultThemeVersion"}, {}),
  El("x:bookViews", <<Some({"x:workbookView"})>>, {}, {}),
  El("x:workbookView", <<One({"x:extLst"})>>, {"visibility", "minimized", "showHorizontalScroll", "showVerticalScroll", "showSheetTabs", "xWindow", "yWindow", "windowWidth", "windowHeight", "tabRatio", "firstSheet", "activeTab", "autoFilterDateGrouping"}, {}),
  El("x:sheets", <<Some({"x:sheet"})>>, {}, {}),
  El("x:sheet", << >>, {"name", "sheetId", "state", "r:id"}, {"name", "sheetId", "r:id"}),
  El("x:definedNames", <<Some({"x:definedName"})>>, {}, {}),
  El("x:definedName", << >>, {"name", "comment", "localSheetId", "hidden", "function"}, {"name"}),
  El("x:calcPr", << >>, {"calcId", "calcMode", "fullCalcOnLoad"}, {}),
  El("x:worksheet", <<One({"x:sheetPr"}), One({"x:dimension"}), One({"x:sheetViews"}), One({"x:sheetFormatPr"}), Many({"x:cols"}), Must({"x:sheetData"}), One({"x:sheetCalcPr"}), One({"x:sheetProtection"}), One({"x:protectedRanges"}), One({"x:scenarios"}), One({"x:autoFilter"}), One({"x:sortState"}), One({"x:dataConsolidate"}), One({"x:customSheetViews"}), One({"x:mergeCells"}), One({"x:phoneticPr"}), Many({"x:conditionalFormatting"}), One({"x:dataValidations"}), One({"x:hyperlinks"}), One({"x:printOptions"}), One({"x:pageMargins"}), One({"x:pageSetup"}), One({"x:headerFooter"}), One({"x:rowBreaks"}), One({"x:colBreaks"}), One({"x:customProperties"}), One({"x:cellWatches"}), One({"x:ignoredErrors"}), One({"x:smartTags"}), One({"x:drawing"}), One({"x:legacyDrawing"}), One({"x:legacyDrawingHF"}), One({"x:picture"}), One({"x:oleObjects"}), One({"x:controls"}), One({"x:webPublishItems"}), One({"x:tableParts"}), One({"x:extLst"})>>, {"mc:Ignorable"}, {}),
  El("x:chartsheet", <<One({"x:sheetPr"}), Must({"x:sheetViews"}), One({"x:sheetProtection"}), One({"x:customSheetViews"}), One({"x:pageMargins"}), One({"x:pageSetup"}), One({"x:headerFooter"}), Must({"x:drawing"}), One({"x:legacyDrawing"}), One({"x:legacyDrawingHF"}), One({"x:picture"}), One({"x:webPublishItems"}), One({"x:extLst"})>>, {"mc:Ignorable"}, {}),
  El("x:sheetPr", <<One({"x:tabColor"}), One({"x:outlinePr"}), One({"x:pageSetUpPr"})>>, {"syncHorizontal", "syncVertical", "syncRef", "transitionEvaluation", "published", "codeName", "filterMode", "enableFormatConditionsCalculation"}, {}),
  El("x:tabColor", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:outlinePr", << >>, {"applyStyles", "summaryBelow", "summaryRight", "showOutlineSymbols"}, {}),
  El("x:pageSetUpPr", << >>, {"autoPageBreaks", "fitToPage"}, {}),
  El("x:dimension", << >>, {"ref"}, {"ref"}),
  El("x:sheetViews", <<Some({"x:sheetView"})>>, {}, {}),
  El("x:sheetView", <<One({"x:pane"}), Many({"x:selection"}), One({"x:extLst"})>>, {"windowProtection", "showFormulas", "showGridLines", "showRowColHeaders", "showZeros", "rightToLeft", "tabSelected", "showRuler", "showOutlineSymbols", "defaultGridColor", "showWhiteSpace", "view", "topLeftCell", "colorId", "zoomScale", "zoomScaleNormal", "zoomScaleSheetLayoutView", "zoomScalePageLayoutView", "workbookViewId", "zoomToFit"}, {"workbookViewId"}),
  El("x:pane", << >>, {"xSplit", "ySplit", "topLeftCell", "activePane", "state"}, {}),
  El("x:selection", << >>, {"pane", "activeCell", "activeCellId", "sqref"}, {}),
  El("x:sheetFormatPr", << >>, {"baseColWidth", "defaultColWidth", "defaultRowHeight", "customHeight", "zeroHeight", "thickTop", "thickBottom", "outlineLevelRow", "outlineLevelCol", "x14ac:dyDescent"}, {"defaultRowHeight"}),
  El("x:cols", <<Some({"x:col"})>>, {}, {}),
  El("x:col", << >>, {"min", "max", "width", "style", "hidden", "bestFit", "customWidth", "phonetic", "outlineLevel", "collapsed"}, {"min", "max"}),
  El("x:sheetData", <<Many({"x:row"})>>, {}, {}),
  El("x:row", <<Many({"x:c"})>>, {"r", "spans", "s", "customFormat", "ht", "hidden", "customHeight", "outlineLevel", "collapsed", "thickTop", "thickBot", "ph", "x14ac:dyDescent"}, {}),
  El("x:c<x:row", <<One({"x:f"}), One({"x:v"}), One({"x:is"})>>, {"r", "s", "t", "cm", "vm", "ph"}, {}),
  El("x:f<x:c", << >>, {"t", "aca", "ref", "dt2D", "dtr", "del1", "del2", "r1", "r2", "ca", "si", "bx"}, {}),
  El("x:v<x:c", << >>, {}, {}),
  El("x:is", <<One({"x:t"}), Many({"x:r"})>>, {}, {}),
  El("x:sst", <<Many({"x:si"})>>, {"count", "uniqueCount"}, {}),
  El("x:si", <<One({"x:t"}), Many({"x:r"})>>, {}, {}),
  El("x:text", <<One({"x:t"}), Many({"x:r"})>>, {}, {}),
  El("x:t<x:is", << >>, {"xml:space"}, {}),
  El("x:t<x:si", << >>, {"xml:space"}, {}),
  El("x:t<x:r", << >>, {"xml:space"}, {}),
  El("x:t<x:text", << >>, {"xml:space"}, {}),
  El("x:r<x:si", <<One({"x:rPr"}), Must({"x:t"})>>, {}, {}),
  El("x:r<x:is", <<One({"x:rPr"}), Must({"x:t"})>>, {}, {}),
  El("x:r<x:text", <<One({"x:rPr"}), Must({"x:t"})>>, {}, {}),
  Bag("x:rPr<x:r", {"x:rFont", "x:charset", "x:family", "x:b", "x:i", "x:strike", "x:outline", "x:shadow", "x:condense", "x:extend", "x:color", "x:sz", "x:u", "x:vertAlign", "x:scheme"}, {}, {}),
  El("x:sheetProtection", << >>, {"password", "algorithmName", "hashValue", "saltValue", "spinCount", "sheet", "objects", "scenarios", "formatCells", "formatColumns", "formatRows", "insertColumns", "insertRows", "insertHyperlinks", "deleteColumns", "deleteRows", "selectLockedCells", "sort", "autoFilter", "pivotTables", "selectUnlockedCells", "content"}, {}),
  El("x:protectedRanges", <<Some({"x:protectedRange"})>>, {}, {}),
  El("x:protectedRange", << >>, {"password", "sqref", "name", "securityDescriptor", "algorithmName", "hashValue", "saltValue", "spinCount"}, {"sqref", "name"}),
  El("x:autoFilter", <<Many({"x:filterColumn"}), One({"x:sortState"})>>, {"ref"}, {}),
  El("x:filterColumn", <<One({"x:filters", "x:top10", "x:customFilters", "x:dynamicFilter", "x:colorFilter", "x:iconFilter"})>>, {"colId", "hiddenButton", "showButton"}, {"colId"}),
  El("x:filters", <<Many({"x:filter"}), Many({"x:dateGroupItem"})>>, {"blank", "calendarType"}, {}),
  El("x:filter<x:filters", << >>, {"val"}, {}),
  El("x:customFilters", <<Some({"x:customFilter"})>>, {"and"}, {}),
  El("x:customFilter", << >>, {"operator", "val"}, {}),
  El("x:colorFilter", << >>, {"dxfId", "cellColor"}, {}),
  El("x:mergeCells", <<Some({"x:mergeCell"})>>, {"count"}, {}),
  El("x:mergeCell", << >>, {"ref"}, {"ref"}),
  El("x:conditionalFormatting", <<Some({"x:cfRule"}), One({"x:extLst"})>>, {"pivot", "sqref"}, {}),
  El("x:cfRule<x:conditionalFormatting", <<Many({"x:formula"}), One({"x:colorScale"}), One({"x:dataBar"}), One({"x:iconSet"}), One({"x:extLst"})>>, {"type", "dxfId", "priority", "stopIfTrue", "aboveAverage", "percent", "bottom", "operator", "text", "timePeriod", "rank", "stdDev", "equalAverage"}, {"priority"}),
  El("x:colorScale", <<Some({"x:cfvo"}), Some({"x:color"})>>, {}, {}),
  El("x:dataBar", <<Some({"x:cfvo"}), Must({"x:color"})>>, {"minLength", "maxLength", "showValue"}, {}),
  El("x:iconSet", <<Some({"x:cfvo"})>>, {"iconSet", "showValue", "percent", "reverse"}, {}),
  El("x:cfvo", << >>, {"type", "val", "gte"}, {"type"}),
  El("x:formula", << >>, {}, {}),
  El("x:formula1", << >>, {}, {}),
  El("x:formula2", << >>, {}, {}),
  El("x:dataValidations", <<Some({"x:dataValidation"})>>, {"disablePrompts", "xWindow", "yWindow", "count"}, {}),
  El("x:dataValidation", <<One({"x:formula1"}), One({"x:formula2"})>>, {"type", "errorStyle", "imeMode", "operator", "allowBlank", "showDropDown", "showInputMessage", "showErrorMessage", "errorTitle", "error", "promptTitle", "prompt", "sqref"}, {"sqref"}),
  El("x:hyperlinks", <<Some({"x:hyperlink"})>>, {}, {}),
  El("x:hyperlink", << >>, {"ref", "r:id", "location", "tooltip", "display"}, {"ref"}),
  El("x:printOptions", << >>, {"horizontalCentered", "verticalCentered", "headings", "gridLines", "gridLinesSet"}, {}),
  El("x:pageMargins", << >>, {"left", "right", "top", "bottom", "header", "footer"}, {"left", "right", "top", "bottom", "header", "footer"}),
  El("x:pageSetup", << >>, {"paperSize", "paperHeight", "paperWidth", "scale", "firstPageNumber", "fitToWidth", "fitToHeight", "pageOrder", "orientation", "usePrinterDefaults", "blackAndWhite", "draft", "cellComments", "useFirstPageNumber", "errors", "horizontalDpi", "verticalDpi", "copies", "r:id"}, {}),
  El("x:headerFooter", <<One({"x:oddHeader"}), One({"x:oddFooter"}), One({"x:evenHeader"}), One({"x:evenFooter"}), One({"x:firstHeader"}), One({"x:firstFooter"})>>, {"differentOddEven", "differentFirst", "scaleWithDoc", "alignWithMargins"}, {}),
  El("x:oddHeader", << >>, {"xml:space"}, {}),
  El("x:oddFooter", << >>, {"xml:space"}, {}),
  El("x:rowBreaks", <<Many({"x:brk"})>>, {"count", "manualBreakCount"}, {}),
  El("x:colBreaks", <<Many({"x:brk"})>>, {"count", "manualBreakCount"}, {}),
  El("x:brk", << >>, {"id", "min", "max", "man", "pt"}, {}),
  El("x:ignoredErrors", <<Some({"x:ignoredError"}), One({"x:extLst"})>>, {}, {}),
  El("x:ignoredError", << >>, {"sqref", "evalError", "twoDigitTextYear", "numberStoredAsText", "formula", "formulaRange", "unlockedFormula", "emptyCellReference", "listDataValidation", "calculatedColumn"}, {"sqref"}),
  El("x:drawing", << >>, {"r:id"}, {"r:id"}),
  El("x:legacyDrawing", << >>, {"r:id"}, {"r:id"}),
  El("x:legacyDrawingHF", << >>, {"r:id"}, {"r:id"}),
  El("x:picture", << >>, {"r:id"}, {"r:id"}),
  El("x:tableParts", <<Many({"x:tablePart"})>>, {"count"}, {}),
  El("x:tablePart", << >>, {"r:id"}, {"r:id"}),
  El("x:extLst<x:worksheet", <<Some({"x:ext"})>>, {}, {}),
  El("x:extLst<x:cfRule", <<Some({"x:ext"})>>, {}, {}),
  El("x:extLst<x:xf", <<Some({"x:ext"})>>, {}, {}),
  El("x:extLst<x:bk", <<Some({"x:ext"})>>, {}, {}),
  El("x:ext{05C60535-1F16-4fd2-B633-F4F36F0B64E0}", <<Must({"x14:sparklineGroups"})>>, {"uri"}, {"uri"}),
  El("x:ext{78C0D931-6437-407d-A8EE-F0AAD7539E65}", <<Must({"x14:conditionalFormattings"})>>, {"uri"}, {"uri"}),
  El("x:ext{B025F937-C7B1-47D3-B67F-A62EFF666E3E}", <<Must({"x14:id"})>>, {"uri"}, {"uri"}),
  El("x:ext{C7286773-470A-42A8-94C5-96B5CB345126}", <<Must({"fpb:xfComplement"})>>, {"uri"}, {"uri"}),
  El("x:ext{3e2802c4-a4d2-4d8b-9148-e3be6c30e623}", <<Must({"xlrd:rvb"})>>, {"uri"}, {"uri"}),
  El("x:ext{bdbb8cdc-fa1e-496e-a857-3c3f30c029c3}", <<Must({"xda:dynamicArrayProperties"})>>, {"uri"}, {"uri"}),
  El("x14:sparklineGroups", <<Some({"x14:sparklineGroup"})>>, {}, {}),
  El("x14:sparklineGroup", <<One({"x14:colorSeries"}), One({"x14:colorNegative"}), One({"x14:colorAxis"}), One({"x14:colorMarkers"}), One({"x14:colorFirst"}), One({"x14:colorLast"}), One({"x14:colorHigh"}), One({"x14:colorLow"}), One({"xm:f"}), Must({"x14:sparklines"})>>, {"manualMax", "manualMin", "lineWeight", "type", "dateAxis", "displayEmptyCellsAs", "markers", "high", "low", "first", "last", "negative", "displayXAxis", "displayHidden", "minAxisType", "maxAxisType", "rightToLeft"}, {}),
  El("x14:sparklines", <<Some({"x14:sparkline"})>>, {}, {}),
  El("x14:sparkline", <<One({"xm:f"}), Must({"xm:sqref"})>>, {}, {}),
  El("x14:colorSeries", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:colorNegative", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:colorAxis", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:colorMarkers", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:colorFirst", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:colorLast", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:colorHigh", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:colorLow", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:conditionalFormattings", <<Some({"x14:conditionalFormatting"})>>, {}, {}),
  El("x14:conditionalFormatting", <<Many({"x14:cfRule"}), One({"xm:sqref"})>>, {}, {}),
  El("x14:cfRule<x14:conditionalFormatting", <<Many({"xm:f"}), One({"x14:colorScale", "x14:dataBar", "x14:iconSet"}), One({"x14:dxf"})>>, {"type", "priority", "stopIfTrue", "id", "activePresent"}, {}),
  El("x14:dataBar", <<Some({"x14:cfvo"}), One({"x14:fillColor"}), One({"x14:borderColor"}), One({"x14:negativeFillColor"}), One({"x14:negativeBorderColor"}), One({"x14:axisColor"})>>, {"minLength", "maxLength", "showValue", "border", "gradient", "direction", "negativeBarColorSameAsPositive", "negativeBarBorderColorSameAsPositive", "axisPosition"}, {}),
  El("x14:iconSet", <<Some({"x14:cfvo"}), Many({"x14:cfIcon"})>>, {"iconSet", "showValue", "percent", "reverse", "custom"}, {}),
  El("x14:cfIcon", << >>, {"iconSet", "iconId"}, {"iconSet", "iconId"}),
  El("x14:cfvo", <<One({"xm:f"})>>, {"type", "gte"}, {"type"}),
  El("x14:borderColor", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:negativeFillColor", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:negativeBorderColor", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:axisColor", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x14:id", << >>, {}, {}),
  El("xm:f", << >>, {}, {}),
  El("xm:sqref", << >>, {}, {}),
  El("x:styleSheet", <<One({"x:numFmts"}), One({"x:fonts"}), One({"x:fills"}), One({"x:borders"}), One({"x:cellStyleXfs"}), One({"x:cellXfs"}), One({"x:cellStyles"}), One({"x:dxfs"}), One({"x:tableStyles"}), One({"x:colors"}), One({"x:extLst"})>>, {"mc:Ignorable"}, {}),
  El("x:numFmts", <<Some({"x:numFmt"})>>, {"count"}, {}),
  El("x:numFmt", << >>, {"numFmtId", "formatCode"}, {"numFmtId", "formatCode"}),
  El("x:fonts", <<Some({"x:font"})>>, {"count", "x14ac:knownFonts"}, {}),
  Bag("x:font<x:fonts", {"x:b", "x:i", "x:strike", "x:condense", "x:extend", "x:outline", "x:shadow", "x:u", "x:vertAlign", "x:sz", "x:color", "x:name", "x:family", "x:charset", "x:scheme"}, {}, {}),
  Bag("x:font<x:dxf", {"x:b", "x:i", "x:strike", "x:condense", "x:extend", "x:outline", "x:shadow", "x:u", "x:vertAlign", "x:sz", "x:color", "x:name", "x:family", "x:charset", "x:scheme"}, {}, {}),
  El("x:b", << >>, {"val"}, {}),
  El("x:i", << >>, {"val"}, {}),
  El("x:strike", << >>, {"val"}, {}),
  El("x:outline", << >>, {"val"}, {}),
  El("x:shadow", << >>, {"val"}, {}),
  El("x:condense", << >>, {"val"}, {}),
  El("x:extend", << >>, {"val"}, {}),
  El("x:u", << >>, {"val"}, {}),
  El("x:vertAlign", << >>, {"val"}, {"val"}),
  El("x:sz", << >>, {"val"}, {"val"}),
  El("x:name", << >>, {"val"}, {"val"}),
  El("x:rFont", << >>, {"val"}, {"val"}),
  El("x:family", << >>, {"val"}, {"val"}),
  El("x:charset", << >>, {"val"}, {"val"}),
  El("x:scheme", << >>, {"val"}, {"val"}),
  El("x:color<x:font", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:bottom", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:top", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:left", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:right", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:diagonal", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:vertical", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:horizontal", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:rPr", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:colorScale", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:color<x:dataBar", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:fills", <<Some({"x:fill"})>>, {"count"}, {}),
  El("x:fill", <<One({"x:patternFill", "x:gradientFill"})>>, {}, {}),
  El("x:patternFill", <<One({"x:fgColor"}), One({"x:bgColor"})>>, {"patternType"}, {}),
  El("x:fgColor", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:bgColor", << >>, {"auto", "indexed", "rgb", "theme", "tint"}, {}),
  El("x:borders", <<Some({"x:border"})>>, {"count"}, {}),
  El("x:border", <<One({"x:left"}), One({"x:right"}), One({"x:top"}), One({"x:bottom"}), One({"x:diagonal"}), One({"x:vertical"}), One({"x:horizontal"})>>, {"diagonalUp", "diagonalDown", "outline"}, {}),
  El("x:left", <<One({"x:color"})>>, {"style"}, {}),
  El("x:right", <<One({"x:color"})>>, {"style"}, {}),
  El("x:top", <<One({"x:color"})>>, {"style"}, {}),
  El("x:bottom", <<One({"x:color"})>>, {"style"}, {}),
  El("x:diagonal", <<One({"x:color"})>>, {"style"}, {}),
  El("x:vertical", <<One({"x:color"})>>, {"style"}, {}),
  El("x:horizontal", <<One({"x:color"})>>, {"style"}, {}),
  El("x:cellStyleXfs", <<Some({"x:xf"})>>, {"count"}, {}),
  El("x:cellXfs", <<Some({"x:xf"})>>, {"count"}, {}),
  El("x:xf", <<One({"x:alignment"}), One({"x:protection"}), One({"x:extLst"})>>, {"numFmtId", "fontId", "fillId", "borderId", "xfId", "quotePrefix", "pivotButton", "applyNumberFormat", "applyFont", "applyFill", "applyBorder", "applyAlignment", "applyProtection"}, {}),
  El("x:alignment", << >>, {"horizontal", "vertical", "textRotation", "wrapText", "indent", "relativeIndent", "justifyLastLine", "shrinkToFit", "readingOrder"}, {}),
  El("x:protection", << >>, {"locked", "hidden"}, {}),
  El("x:cellStyles", <<Some({"x:cellStyle"})>>, {"count"}, {}),
  El("x:cellStyle", << >>, {"name", "xfId", "builtinId", "iLevel", "hidden", "customBuiltin"}, {"xfId"}),
  El("x:dxfs", <<Many({"x:dxf"})>>, {"count"}, {}),
  El("x:dxf", <<One({"x:font"}), One({"x:numFmt"}), One({"x:fill"}), One({"x:alignment"}), One({"x:border"}), One({"x:protection"})>>, {}, {}),
  El("x:tableStyles", << >>, {"count", "defaultTableStyle", "defaultPivotStyle"}, {}),
  El("x:table", <<One({"x:autoFilter"}), One({"x:sortState"}), Must({"x:tableColumns"}), One({"x:tableStyleInfo"})>>, {"id", "name", "displayName", "comment", "ref", "tableType", "headerRowCount", "insertRow", "insertRowShift", "totalsRowCount", "totalsRowShown", "published", "headerRowDxfId", "dataDxfId", "totalsRowDxfId", "headerRowBorderDxfId", "tableBorderDxfId", "totalsRowBorderDxfId", "headerRowCellStyle", "dataCellStyle", "totalsRowCellStyle"}, {"id", "displayName", "ref"}),
  El("x:tableColumns", <<Some({"x:tableColumn"})>>, {"count"}, {}),
  El("x:tableColumn", <<One({"x:calculatedColumnFormula"}), One({"x:totalsRowFormula"})>>, {"id", "uniqueName", "name", "totalsRowFunction", "totalsRowLabel", "queryTableFieldId", "headerRowDxfId", "dataDxfId", "totalsRowDxfId", "headerRowCellStyle", "dataCellStyle", "totalsRowCellStyle"}, {"id", "name"}),
  El("x:calculatedColumnFormula", << >>, {"array"}, {}),
  El("x:totalsRowFormula", << >>, {"array"}, {}),
  El("x:tableStyleInfo", << >>, {"name", "showFirstColumn", "showLastColumn", "showRowStripes", "showColumnStripes"}, {}),
  El("x:comments", <<Must({"x:authors"}), Must({"x:commentList"})>>, {}, {}),
  El("x:authors", <<Many({"x:author"})>>, {}, {}),
  El("x:author", << >>, {}, {}),
  El("x:commentList", <<Many({"x:comment"})>>, {}, {}),
  El("x:comment", <<Must({"x:text"})>>, {"ref", "authorId", "guid", "shapeId"}, {"ref", "authorId"}),
  El("x:metadata", <<One({"x:metadataTypes"}), One({"x:metadataStrings"}), One({"x:mdxMetadata"}), Many({"x:futureMetadata"}), One({"x:cellMetadata"}), One({"x:valueMetadata"})>>, {}, {}),
  El("x:metadataTypes", <<Some({"x:metadataType"})>>, {"count"}, {}),
  El("x:metadataType", << >>, {"name", "minSupportedVersion", "ghostRow", "ghostCol", "edit", "delete", "copy", "pasteAll", "pasteFormulas", "pasteValues", "pasteFormats", "pasteComments", "pasteDataValidation", "pasteBorders", "pasteColWidths", "pasteNumberFormats", "merge", "splitFirst", "splitAll", "rowColShift", "clearAll", "clearFormats", "clearContents", "clearComments", "assign", "coerce", "adjust", "cellMeta"}, {"name", "minSupportedVersion"}),
  El("x:futureMetadata", <<Many({"x:bk"})>>, {"name", "count"}, {"name"}),
  El("x:bk<x:futureMetadata", <<One({"x:extLst"})>>, {}, {}),
  El("x:cellMetadata", <<Some({"x:bk"})>>, {"count"}, {}),
  El("x:valueMetadata", <<Some({"x:bk"})>>, {"count"}, {}),
  El("x:bk<x:cellMetadata", <<Some({"x:rc"})>>, {}, {}),
  El("x:bk<x:valueMetadata", <<Some({"x:rc"})>>, {}, {}),
  El("x:rc", << >>, {"t", "v"}, {"t", "v"}),
  El("xlrd:rvb", << >>, {"i"}, {"i"}),
  El("xlrd:rvData", <<Many({"xlrd:rv"})>>, {"count"}, {}),
  El("xlrd:rv", <<Many({"xlrd:v"})>>, {"s"}, {"s"}),
  El("xlrd:v", << >>, {}, {}),
  El("xlrd:rvStructures", <<Many({"xlrd:s"})>>, {"count"}, {}),
  El("xlrd:s", <<Many({"xlrd:k"})>>, {"t"}, {"t"}),
  El("xlrd:k", << >>, {"n", "t"}, {"n"}),
  El("xda:dynamicArrayProperties", << >>, {"fDynamic", "fCollapsed"}, {}),
  El("xlrd2:rvTypesInfo", <<One({"xlrd2:global"}), One({"xlrd2:types"})>>, {"mc:Ignorable"}, {}),
  El("xlrd2:global", <<One({"xlrd2:keyFlags"})>>, {}, {}),
  El("xlrd2:keyFlags", <<Many({"xlrd2:key"})>>, {}, {}),
  El("xlrd2:key", <<Many({"xlrd2:flag"})>>, {"name"}, {"name"}),
  El("xlrd2:flag", << >>, {"name", "value"}, {"name", "value"}),
  El("rvr:richValueRels", <<Many({"rvr:rel"})>>, {}, {}),
  El("rvr:rel", << >>, {"r:id"}, {"r:id"}),
  El("fpb:FeaturePropertyBags", <<Many({"fpb:bagExt"}), Many({"fpb:bag"})>>, {}, {}),
  El("fpb:bag", <<Many({"fpb:a", "fpb:bagId", "fpb:b", "fpb:i", "fpb:s", "fpb:d", "fpb:rel"})>>, {"type", "extRef", "bagExtId", "att"}, {}),
  El("fpb:a", <<Many({"fpb:bagId"})>>, {"k"}, {"k"}),
  El("fpb:bagId", << >>, {"k"}, {}),
  El("fpb:xfComplement", << >>, {"i"}, {"i"}),
  El("xdr:wsDr", <<Many({"xdr:twoCellAnchor", "xdr:oneCellAnchor", "xdr:absoluteAnchor"})>>, {}, {}),
  El("xdr:twoCellAnchor", <<Must({"xdr:from"}), Must({"xdr:to"}), Must({"xdr:sp", "xdr:grpSp", "xdr:graphicFrame", "xdr:cxnSp", "xdr:pic"}), Must({"xdr:clientData"})>>, {"editAs"}, {}),
  El("xdr:absoluteAnchor", <<Must({"xdr:pos"}), Must({"xdr:ext"}), Must({"xdr:sp", "xdr:grpSp", "xdr:graphicFrame", "xdr:cxnSp", "xdr:pic"}), Must({"xdr:clientData"})>>, {}, {}),
  El("xdr:from", <<Must({"xdr:col"}), Must({"xdr:colOff"}), Must({"xdr:row"}), Must({"xdr:rowOff"})>>, {}, {}),
  El("xdr:to", <<Must({"xdr:col"}), Must({"xdr:colOff"}), Must({"xdr:row"}), Must({"xdr:rowOff"})>>, {}, {}),
  El("xdr:col", << >>, {}, {}),
  El("xdr:colOff", << >>, {}, {}),
  El("xdr:row", << >>, {}, {}),
  El("xdr:rowOff", << >>, {}, {}),
  El("xdr:pos", << >>, {"x", "y"}, {"x", "y"}),
  El("xdr:ext", << >>, {"cx", "cy"}, {"cx", "cy"}),
  El("xdr:clientData", << >>, {"fLocksWithSheet", "fPrintsWithSheet"}, {}),
  El("xdr:graphicFrame", <<Must({"xdr:nvGraphicFramePr"}), Must({"xdr:xfrm"}), Must({"a:graphic"})>>, {"macro", "fPublished"}, {}),
  El("xdr:nvGraphicFramePr", <<Must({"xdr:cNvPr"}), Must({"xdr:cNvGraphicFramePr"})>>, {}, {}),
  El("xdr:cNvGraphicFramePr", <<One({"a:graphicFrameLocks"})>>, {}, {}),
  El("xdr:xfrm", <<Must({"a:off"}), Must({"a:ext"})>>, {"rot", "flipH", "flipV"}, {}),
  El("xdr:cNvPr", <<One({"a:hlinkClick"}), One({"a:hlinkHover"}), One({"a:extLst"})>>, {"id", "name", "descr", "hidden", "title"}, {"id", "name"}),
  El("xdr:pic", <<Must({"xdr:nvPicPr"}), Must({"xdr:blipFill"}), Must({"xdr:spPr"}), One({"xdr:style"})>>, {"macro", "fPublished"}, {}),
  El("xdr:nvPicPr", <<Must({"xdr:cNvPr"}), Must({"xdr:cNvPicPr"})>>, {}, {}),
  El("xdr:cNvPicPr", <<One({"a:picLocks"})>>, {"preferRelativeResize"}, {}),
  El("xdr:blipFill", <<One({"a:blip"}), One({"a:srcRect"}), One({"a:tile", "a:stretch"})>>, {"dpi", "rotWithShape"}, {}),
  El("xdr:sp", <<Must({"xdr:nvSpPr"}), Must({"xdr:spPr"}), One({"xdr:style"}), One({"xdr:txBody"})>>, {"macro", "textlink", "fLocksText", "fPublished"}, {}),
  El("xdr:nvSpPr", <<Must({"xdr:cNvPr"}), Must({"xdr:cNvSpPr"})>>, {}, {}),
  El("xdr:cNvSpPr", <<One({"a:spLocks"})>>, {"txBox"}, {}),
  El("xdr:style", <<Must({"a:lnRef"}), Must({"a:fillRef"}), Must({"a:effectRef"}), Must({"a:fontRef"})>>, {}, {}),
  El("xdr:txBody", <<Must({"a:bodyPr"}), One({"a:lstStyle"}), Some({"a:p"})>>, {}, {}),
  El("xdr:spPr", <<One({"a:xfrm"}), One({"a:prstGeom", "a:custGeom"}), One({"a:noFill", "a:solidFill", "a:gradFill", "a:blipFill", "a:pattFill"}), One({"a:ln"}), One({"a:effectLst"}), One({"a:scene3d"}), One({"a:sp3d"})>>, {"bwMode"}, {}),
  El("c:spPr", <<One({"a:xfrm"}), One({"a:prstGeom", "a:custGeom"}), One({"a:noFill", "a:solidFill", "a:gradFill", "a:blipFill", "a:pattFill"}), One({"a:ln"}), One({"a:effectLst"}), One({"a:scene3d"}), One({"a:sp3d"})>>, {"bwMode"}, {}),
  El("c14:spPr", <<One({"a:xfrm"}), One({"a:prstGeom", "a:custGeom"}), One({"a:noFill", "a:solidFill", "a:gradFill", "a:blipFill", "a:pattFill"}), One({"a:ln"}), One({"a:effectLst"}), One({"a:scene3d"}), One({"a:sp3d"})>>, {"bwMode"}, {}),
  El("a:graphicFrameLocks", << >>, {"noGrp", "noDrilldown", "noSelect", "noChangeAspect", "noMove", "noResize"}, {}),
  El("a:picLocks", << >>, {"noChangeAspect", "noGrp", "noSelect", "noRot", "noMove", "noResize", "noCrop"}, {}),
  El("a:hlinkClick", << >>, {"r:id", "tooltip", "action", "tgtFrame"}, {"r:id"}),
  El("a:extLst<xdr:cNvPr", <<Many({"a:ext"})>>, {}, {}),
  El("a:ext{FF2B5EF4-FFF2-40B4-BE49-F238E27FC236}", <<Must({"a16:creationId"})>>, {"uri"}, {"uri"}),
  El("a:ext{C183D7F6-B498-43B3-948B-1728B52AA6E4}", <<Must({"adec:decorative"})>>, {"uri"}, {"uri"}),
  El("a16:creationId", << >>, {"id"}, {"id"}),
  El("adec:decorative", << >>, {"val"}, {}),
  El("a:ext<a:xfrm", << >>, {"cx", "cy"}, {"cx", "cy"}),
  El("a:ext<xdr:xfrm", << >>, {"cx", "cy"}, {"cx", "cy"}),
  El("a:off", << >>, {"x", "y"}, {"x", "y"}),
  El("a:xfrm", <<One({"a:off"}), One({"a:ext"})>>, {"rot", "flipH", "flipV"}, {}),
  El("a:prstGeom", <<One({"a:avLst"})>>, {"prst"}, {"prst"}),
  El("a:avLst", <<Many({"a:gd"})>>, {}, {}),
  El("a:blip", << >>, {"r:embed", "r:link", "cstate"}, {}),
  El("a:stretch", <<One({"a:fillRect"})>>, {}, {}),
  El("a:fillRect", << >>, {"l", "t", "r", "b"}, {}),
  El("a:graphic", <<Must({"a:graphicData"})>>, {}, {}),
  El("a:graphicData", <<Must({"c:chart"})>>, {"uri"}, {"uri"}),
  El("a:lnRef", <<One({"a:scrgbClr", "a:srgbClr", "a:schemeClr"})>>, {"idx"}, {"idx"}),
  El("a:fillRef", <<One({"a:scrgbClr", "a:srgbClr", "a:schemeClr"})>>, {"idx"}, {"idx"}),
  El("a:effectRef", <<One({"a:scrgbClr", "a:srgbClr", "a:schemeClr"})>>, {"idx"}, {"idx"}),
  El("a:fontRef", <<One({"a:scrgbClr", "a:srgbClr", "a:schemeClr"})>>, {"idx"}, {"idx"}),
  El("a:scrgbClr", << >>, {"r", "g", "b"}, {"r", "g", "b"}),
  Bag("a:srgbClr", {"a:tint", "a:shade", "a:alpha", "a:lumMod", "a:lumOff", "a:satMod"}, {"val"}, {"val"}),
  Bag("a:schemeClr", {"a:tint", "a:shade", "a:alpha", "a:lumMod", "a:lumOff", "a:satMod"}, {"val"}, {"val"}),
  El("a:sysClr", << >>, {"val", "lastClr"}, {"val"}),
  El("a:tint", << >>, {"val"}, {"val"}),
  El("a:shade", << >>, {"val"}, {"val"}),
  El("a:alpha", << >>, {"val"}, {"val"}),
  El("a:lumMod", << >>, {"val"}, {"val"}),
  El("a:lumOff", << >>, {"val"}, {"val"}),
  El("a:satMod", << >>, {"val"}, {"val"}),
  El("a:bodyPr", <<One({"a:prstTxWarp"}), One({"a:noAutofit", "a:normAutofit", "a:spAutoFit"}), One({"a:scene3d"}), One({"a:sp3d"})>>, {"rot", "spcFirstLastPara", "vertOverflow", "horzOverflow", "vert", "wrap", "lIns", "tIns", "rIns", "bIns", "numCol", "spcCol", "rtlCol", "fromWordArt", "anchor", "anchorCtr", "forceAA", "upright", "compatLnSpc"}, {}),
  El("a:lstStyle", << >>, {}, {}),
  El("a:p", <<One({"a:pPr"}), Many({"a:r", "a:br", "a:fld"}), One({"a:endParaRPr"})>>, {}, {}),
  El("a:pPr", <<One({"a:lnSpc"}), One({"a:spcBef"}), One({"a:spcAft"}), One({"a:defRPr"})>>, {"marL", "marR", "lvl", "indent", "algn", "defTabSz", "rtl", "eaLnBrk", "fontAlgn", "latinLnBrk", "hangingPunct"}, {}),
  El("a:r", <<One({"a:rPr"}), Must({"a:t"})>>, {}, {}),
  El("a:fld", <<One({"a:rPr"}), One({"a:pPr"}), One({"a:t"})>>, {"id", "type"}, {"id"}),
  El("a:t", << >>, {}, {}),
  El("a:rPr", <<One({"a:ln"}), One({"a:noFill", "a:solidFill", "a:gradFill", "a:pattFill"}), One({"a:effectLst"}), One({"a:highlight"}), One({"a:latin"}), One({"a:ea"}), One({"a:cs"}), One({"a:sym"}), One({"a:hlinkClick"})>>, {"kumimoji", "lang", "altLang", "sz", "b", "i", "u", "strike", "kern", "cap", "spc", "normalizeH", "baseline", "noProof", "dirty", "err"}, {}),
  El("a:defRPr", <<One({"a:ln"}), One({"a:noFill", "a:solidFill", "a:gradFill", "a:pattFill"}), One({"a:effectLst"}), One({"a:highlight"}), One({"a:latin"}), One({"a:ea"}), One({"a:cs"}), One({"a:sym"}), One({"a:hlinkClick"})>>, {"kumimoji", "lang", "altLang", "sz", "b", "i", "u", "strike", "kern", "cap", "spc", "normalizeH", "baseline", "noProof", "dirty", "err"}, {}),
  El("a:endParaRPr", <<One({"a:ln"}), One({"a:noFill", "a:solidFill", "a:gradFill", "a:pattFill"}), One({"a:effectLst"}), One({"a:highlight"}), One({"a:latin"}), One({"a:ea"}), One({"a:cs"}), One({"a:sym"}), One({"a:hlinkClick"})>>, {"kumimoji", "lang", "altLang", "sz", "b", "i", "u", "strike", "kern", "cap", "spc", "normalizeH", "baseline", "noProof", "dirty", "err"}, {}),
  El("a:latin", << >>, {"typeface", "panose", "pitchFamily", "charset"}, {}),
  El("a:ea", << >>, {"typeface", "panose", "pitchFamily", "charset"}, {"typeface"}),
  El("a:cs", << >>, {"typeface", "panose", "pitchFamily", "charset"}, {"typeface"}),
  El("a:noFill", << >>, {}, {}),
  El("a:solidFill", <<One({"a:srgbClr", "a:schemeClr", "a:scrgbClr", "a:sysClr", "a:prstClr"})>>, {}, {}),
  El("a:gradFill", <<One({"a:gsLst"}), One({"a:lin", "a:path"}), One({"a:tileRect"})>>, {"flip", "rotWithShape"}, {}),
  El("a:gsLst", <<Some({"a:gs"})>>, {}, {}),
  El("a:gs", <<Must({"a:srgbClr", "a:schemeClr"})>>, {"pos"}, {"pos"}),
  El("a:lin", << >>, {"ang", "scaled"}, {}),
  El("a:path", <<One({"a:fillToRect"})>>, {"path"}, {}),
  El("a:fillToRect", << >>, {"l", "t", "r", "b"}, {}),
  El("a:tileRect", << >>, {"l", "t", "r", "b"}, {}),
  El("a:pattFill", <<One({"a:fgClr"}), One({"a:bgClr"})>>, {"prst"}, {}),
  El("a:fgClr", <<Must({"a:srgbClr", "a:schemeClr"})>>, {}, {}),
  El("a:bgClr", <<Must({"a:srgbClr", "a:schemeClr"})>>, {}, {}),
  El("a:ln", <<One({"a:noFill", "a:solidFill", "a:gradFill", "a:pattFill"}), One({"a:prstDash", "a:custDash"}), One({"a:round", "a:bevel", "a:miter"}), One({"a:headEnd"}), One({"a:tailEnd"})>>, {"w", "cap", "cmpd", "algn"}, {}),
  El("a:prstDash", << >>, {"val"}, {}),
  El("a:theme", <<Must({"a:themeElements"}), One({"a:objectDefaults"}), One({"a:extraClrSchemeLst"})>>, {"name"}, {}),
  El("a:themeElements", <<Must({"a:clrScheme"}), Must({"a:fontScheme"}), Must({"a:fmtScheme"})>>, {}, {}),
  El("a:clrScheme", <<Must({"a:dk1"}), Must({"a:lt1"}), Must({"a:dk2"}), Must({"a:lt2"}), Must({"a:accent1"}), Must({"a:accent2"}), Must({"a:accent3"}), Must({"a:accent4"}), Must({"a:accent5"}), Must({"a:accent6"}), Must({"a:hlink"}), Must({"a:folHlink"})>>, {"name"}, {"name"}),
  El("a:dk1", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:lt1", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:dk2", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:lt2", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:accent1", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:accent2", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:accent3", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:accent4", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:accent5", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:accent6", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:hlink", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:folHlink", <<Must({"a:sysClr", "a:srgbClr"})>>, {}, {}),
  El("a:fontScheme", <<Must({"a:majorFont"}), Must({"a:minorFont"})>>, {"name"}, {"name"}),
  El("a:majorFont", <<Must({"a:latin"}), Must({"a:ea"}), Must({"a:cs"}), Many({"a:font"})>>, {}, {}),
  El("a:minorFont", <<Must({"a:latin"}), Must({"a:ea"}), Must({"a:cs"}), Many({"a:font"})>>, {}, {}),
  El("a:font", << >>, {"script", "typeface"}, {"script", "typeface"}),
  El("a:fmtScheme", <<Must({"a:fillStyleLst"}), Must({"a:lnStyleLst"}), Must({"a:effectStyleLst"}), Must({"a:bgFillStyleLst"})>>, {"name"}, {}),
  El("a:fillStyleLst", <<Some({"a:solidFill", "a:gradFill"})>>, {}, {}),
  El("a:bgFillStyleLst", <<Some({"a:solidFill", "a:gradFill"})>>, {}, {}),
  El("a:lnStyleLst", <<Some({"a:ln"})>>, {}, {}),
  El("a:effectStyleLst", <<Some({"a:effectStyle"})>>, {}, {}),
  El("a:effectStyle", <<One({"a:effectLst"}), One({"a:scene3d"}), One({"a:sp3d"})>>, {}, {}),
  El("a:effectLst", <<One({"a:outerShdw"})>>, {}, {}),
  El("a:outerShdw", <<One({"a:srgbClr"})>>, {"blurRad", "dist", "dir", "rotWithShape"}, {}),
  El("a:scene3d", <<Must({"a:camera"}), Must({"a:lightRig"})>>, {}, {}),
  El("a:camera", <<One({"a:rot"})>>, {"prst"}, {"prst"}),
  El("a:rot", << >>, {"lat", "lon", "rev"}, {"lat", "lon", "rev"}),
  El("a:lightRig", <<One({"a:rot"})>>, {"rig", "dir"}, {"rig", "dir"}),
  El("a:sp3d", <<One({"a:bevelT"})>>, {}, {}),
  El("a:bevelT", << >>, {"w", "h", "prst"}, {}),
  El("a:objectDefaults", << >>, {}, {}),
  El("a:extraClrSchemeLst", << >>, {}, {}),
  El("c:chartSpace", <<One({"c:date1904"}), One({"c:lang"}), One({"c:roundedCorners"}), One({"c:style"}), One({"c:clrMapOvr"}), One({"c:pivotSource"}), One({"c:protection"}), Must({"c:chart"}), One({"c:spPr"}), One({"c:txPr"}), One({"c:externalData"}), One({"c:printSettings"}), One({"c:userShapes"}), One({"c:extLst"})>>, {}, {}),
  El("c:lang", << >>, {"val"}, {"val"}),
  El("c:style", << >>, {"val"}, {"val"}),
  El("c:protection", <<One({"c:chartObject"}), One({"c:data"}), One({"c:formatting"}), One({"c:selection"}), One({"c:userInterface"})>>, {}, {}),
  El("c:chart", <<One({"c:title"}), One({"c:autoTitleDeleted"}), One({"c:pivotFmts"}), One({"c:view3D"}), One({"c:floor"}), One({"c:sideWall"}), One({"c:backWall"}), One({"c:plotArea"}), One({"c:legend"}), One({"c:plotVisOnly"}), One({"c:dispBlanksAs"}), One({"c:extLst"})>>, {"r:id"}, {}),
  El("c:printSettings", <<One({"c:headerFooter"}), One({"c:pageMargins"}), One({"c:pageSetup"})>>, {}, {}),
  El("c:headerFooter", << >>, {}, {}),
  El("c:pageMargins", << >>, {"l", "r", "t", "b", "header", "footer"}, {"l", "r", "t", "b", "header", "footer"}),
  El("c:pageSetup", << >>, {"orientation", "paperSize"}, {}),
  El("c:title", <<One({"c:tx"}), One({"c:layout"}), One({"c:overlay"}), One({"c:spPr"}), One({"c:txPr"})>>, {}, {}),
  El("c:tx<c:title", <<Must({"c:rich", "c:strRef"})>>, {}, {}),
  El("c:tx<c:ser", <<Must({"c:strRef", "c:v"})>>, {}, {}),
  El("c:tx<c:dLbl", <<Must({"c:rich", "c:strRef"})>>, {}, {}),
  El("c:rich", <<Must({"a:bodyPr"}), One({"a:lstStyle"}), Some({"a:p"})>>, {}, {}),
  El("c:txPr", <<Must({"a:bodyPr"}), One({"a:lstStyle"}), Some({"a:p"})>>, {}, {}),
  El("c:strRef", <<Must({"c:f"}), One({"c:strCache"})>>, {}, {}),
  El("c:numRef", <<Must({"c:f"}), One({"c:numCache"})>>, {}, {}),
  El("c:strCache", <<One({"c:ptCount"}), Many({"c:pt"})>>, {}, {}),
  El("c:numCache", <<One({"c:formatCode"}), One({"c:ptCount"}), Many({"c:pt"})>>, {}, {}),
  El("c:f", << >>, {}, {}),
  El("c:v", << >>, {}, {}),
  El("c:formatCode", << >>, {}, {}),
  El("c:pt", <<Must({"c:v"})>>, {"idx", "formatCode"}, {"idx"}),
  El("c:ptCount", << >>, {"val"}, {"val"}),
  El("c:layout", <<One({"c:manualLayout"})>>, {}, {}),
  El("c:manualLayout", <<One({"c:layoutTarget"}), One({"c:xMode"}), One({"c:yMode"}), One({"c:wMode"}), One({"c:hMode"}), One({"c:x"}), One({"c:y"}), One({"c:w"}), One({"c:h"})>>, {}, {}),
  El("c:plotArea", <<One({"c:layout"}), Some({"c:areaChart", "c:lineChart", "c:stockChart", "c:radarChart", "c:scatterChart", "c:pieChart", "c:doughnutChart", "c:barChart"}), Many({"c:valAx", "c:catAx", "c:dateAx"}), One({"c:dTable"}), One({"c:spPr"})>>, {}, {}),
  El("c:areaChart", <<One({"c:grouping"}), One({"c:varyColors"}), Many({"c:ser"}), One({"c:dLbls"}), One({"c:dropLines"}), Some({"c:axId"})>>, {}, {}),
  El("c:barChart", <<Must({"c:barDir"}), One({"c:grouping"}), One({"c:varyColors"}), Many({"c:ser"}), One({"c:dLbls"}), One({"c:gapWidth"}), One({"c:overlap"}), Many({"c:serLines"}), Some({"c:axId"})>>, {}, {}),
  El("c:lineChart", <<Must({"c:grouping"}), One({"c:varyColors"}), Many({"c:ser"}), One({"c:dLbls"}), One({"c:dropLines"}), One({"c:hiLowLines"}), One({"c:upDownBars"}), One({"c:marker"}), One({"c:smooth"}), Some({"c:axId"})>>, {}, {}),
  El("c:pieChart", <<One({"c:varyColors"}), Many({"c:ser"}), One({"c:dLbls"}), One({"c:firstSliceAng"})>>, {}, {}),
  El("c:doughnutChart", <<One({"c:varyColors"}), Many({"c:ser"}), One({"c:dLbls"}), One({"c:firstSliceAng"}), One({"c:holeSize"})>>, {}, {}),
  El("c:radarChart", <<Must({"c:radarStyle"}), One({"c:varyColors"}), Many({"c:ser"}), One({"c:dLbls"}), Some({"c:axId"})>>, {}, {}),
  El("c:scatterChart", <<Must({"c:scatterStyle"}), One({"c:varyColors"}), Many({"c:ser"}), One({"c:dLbls"}), Some({"c:axId"})>>, {}, {}),
  El("c:stockChart", <<Some({"c:ser"}), One({"c:dLbls"}), One({"c:dropLines"}), One({"c:hiLowLines"}), One({"c:upDownBars"}), Some({"c:axId"})>>, {}, {}),
  El("c:ser<c:areaChart", <<Must({"c:idx"}), Must({"c:order"}), One({"c:tx"}), One({"c:spPr"}), One({"c:pictureOptions"}), Many({"c:dPt"}), One({"c:dLbls"}), Many({"c:trendline"}), Many({"c:errBars"}), One({"c:cat"}), One({"c:val"}), One({"c:extLst"})>>, {}, {}),
  El("c:ser<c:barChart", <<Must({"c:idx"}), Must({"c:order"}), One({"c:tx"}), One({"c:spPr"}), One({"c:invertIfNegative"}), One({"c:pictureOptions"}), Many({"c:dPt"}), One({"c:dLbls"}), Many({"c:trendline"}), One({"c:errBars"}), One({"c:cat"}), One({"c:val"}), One({"c:shape"}), One({"c:extLst"})>>, {}, {}),
  El("c:ser<c:lineChart", <<Must({"c:idx"}), Must({"c:order"}), One({"c:tx"}), One({"c:spPr"}), One({"c:marker"}), Many({"c:dPt"}), One({"c:dLbls"}), Many({"c:trendline"}), One({"c:errBars"}), One({"c:cat"}), One({"c:val"}), One({"c:smooth"}), One({"c:extLst"})>>, {}, {}),
  El("c:ser<c:stockChart", <<Must({"c:idx"}), Must({"c:order"}), One({"c:tx"}), One({"c:spPr"}), One({"c:marker"}), Many({"c:dPt"}), One({"c:dLbls"}), Many({"c:trendline"}), One({"c:errBars"}), One({"c:cat"}), One({"c:val"}), One({"c:smooth"}), One({"c:extLst"})>>, {}, {}),
  El("c:ser<c:pieChart", <<Must({"c:idx"}), Must({"c:order"}), One({"c:tx"}), One({"c:spPr"}), One({"c:explosion"}), Many({"c:dPt"}), One({"c:dLbls"}), One({"c:cat"}), One({"c:val"}), One({"c:extLst"})>>, {}, {}),
  El("c:ser<c:doughnutChart", <<Must({"c:idx"}), Must({"c:order"}), One({"c:tx"}), One({"c:spPr"}), One({"c:explosion"}), Many({"c:dPt"}), One({"c:dLbls"}), One({"c:cat"}), One({"c:val"}), One({"c:extLst"})>>, {}, {}),
  El("c:ser<c:radarChart", <<Must({"c:idx"}), Must({"c:order"}), One({"c:tx"}), One({"c:spPr"}), One({"c:marker"}), Many({"c:dPt"}), One({"c:dLbls"}), One({"c:cat"}), One({"c:val"}), One({"c:extLst"})>>, {}, {}),
  El("c:ser<c:scatterChart", <<Must({"c:idx"}), Must({"c:order"}), One({"c:tx"}), One({"c:spPr"}), One({"c:marker"}), Many({"c:dPt"}), One({"c:dLbls"}), Many({"c:trendline"}), Many({"c:errBars"}), One({"c:xVal"}), One({"c:yVal"}), One({"c:smooth"}), One({"c:extLst"})>>, {}, {}),
  El("c:dPt", <<Must({"c:idx"}), One({"c:invertIfNegative"}), One({"c:marker"}), One({"c:bubble3D"}), One({"c:explosion"}), One({"c:spPr"})>>, {}, {}),
  El("c:dLbls", <<Many({"c:dLbl"}), One({"c:delete"}), One({"c:numFmt"}), One({"c:spPr"}), One({"c:txPr"}), One({"c:dLblPos"}), One({"c:showLegendKey"}), One({"c:showVal"}), One({"c:showCatName"}), One({"c:showSerName"}), One({"c:showPercent"}), One({"c:showBubbleSize"}), One({"c:separator"}), One({"c:showLeaderLines"}), One({"c:leaderLines"}), One({"c:extLst"})>>, {}, {}),
  El("c:dLbl", <<Must({"c:idx"}), One({"c:delete"}), One({"c:layout"}), One({"c:tx"}), One({"c:numFmt"}), One({"c:spPr"}), One({"c:txPr"}), One({"c:dLblPos"}), One({"c:showLegendKey"}), One({"c:showVal"}), One({"c:showCatName"}), One({"c:showSerName"}), One({"c:showPercent"}), One({"c:showBubbleSize"}), One({"c:separator"}), One({"c:extLst"})>>, {}, {}),
  El("c:cat", <<Must({"c:multiLvlStrRef", "c:numRef", "c:numLit", "c:strRef", "c:strLit"})>>, {}, {}),
  El("c:xVal", <<Must({"c:multiLvlStrRef", "c:numRef", "c:numLit", "c:strRef", "c:strLit"})>>, {}, {}),
  El("c:val", <<One({"c:numRef", "c:numLit"})>>, {"val"}, {}),
  El("c:yVal", <<Must({"c:numRef", "c:numLit"})>>, {}, {}),
  El("c:plus", <<Must({"c:numRef", "c:numLit"})>>, {}, {}),
  El("c:minus", <<Must({"c:numRef", "c:numLit"})>>, {}, {}),
  El("c:errBars", <<One({"c:errDir"}), Must({"c:errBarType"}), Must({"c:errValType"}), One({"c:noEndCap"}), One({"c:plus"}), One({"c:minus"}), One({"c:val"}), One({"c:spPr"})>>, {}, {}),
  El("c:trendline", <<One({"c:name"}), One({"c:spPr"}), Must({"c:trendlineType"}), One({"c:order"}), One({"c:period"}), One({"c:forward"}), One({"c:backward"}), One({"c:intercept"}), One({"c:dispRSqr"}), One({"c:dispEq"}), One({"c:trendlineLbl"})>>, {}, {}),
  El("c:trendlineLbl", <<One({"c:layout"}), One({"c:tx"}), One({"c:numFmt"}), One({"c:spPr"}), One({"c:txPr"})>>, {}, {}),
  El("c:name", << >>, {}, {}),
  El("c:separator", << >>, {}, {}),
  El("c:catAx", <<Must({"c:axId"}), Must({"c:scaling"}), One({"c:delete"}), Must({"c:axPos"}), One({"c:majorGridlines"}), One({"c:minorGridlines"}), One({"c:title"}), One({"c:numFmt"}), One({"c:majorTickMark"}), One({"c:minorTickMark"}), One({"c:tickLblPos"}), One({"c:spPr"}), One({"c:txPr"}), Must({"c:crossAx"}), One({"c:crosses", "c:crossesAt"}), One({"c:auto"}), One({"c:lblAlgn"}), One({"c:lblOffset"}), One({"c:tickLblSkip"}), One({"c:tickMarkSkip"}), One({"c:noMultiLvlLbl"})>>, {}, {}),
  El("c:valAx", <<Must({"c:axId"}), Must({"c:scaling"}), One({"c:delete"}), Must({"c:axPos"}), One({"c:majorGridlines"}), One({"c:minorGridlines"}), One({"c:title"}), One({"c:numFmt"}), One({"c:majorTickMark"}), One({"c:minorTickMark"}), One({"c:tickLblPos"}), One({"c:spPr"}), One({"c:txPr"}), Must({"c:crossAx"}), One({"c:crosses", "c:crossesAt"}), One({"c:crossBetween"}), One({"c:majorUnit"}), One({"c:minorUnit"}), One({"c:dispUnits"})>>, {}, {}),
  El("c:dateAx", <<Must({"c:axId"}), Must({"c:scaling"}), One({"c:delete"}), Must({"c:axPos"}), One({"c:majorGridlines"}), One({"c:minorGridlines"}), One({"c:title"}), One({"c:numFmt"}), One({"c:majorTickMark"}), One({"c:minorTickMark"}), One({"c:tickLblPos"}), One({"c:spPr"}), One({"c:txPr"}), Must({"c:crossAx"}), One({"c:crosses", "c:crossesAt"}), One({"c:auto"}), One({"c:lblOffset"}), One({"c:baseTimeUnit"}), One({"c:majorUnit"}), One({"c:majorTimeUnit"}), One({"c:minorUnit"}), One({"c:minorTimeUnit"})>>, {}, {}),
  El("c:scaling", <<One({"c:logBase"}), One({"c:orientation"}), One({"c:max"}), One({"c:min"})>>, {}, {}),
  El("c:majorGridlines", <<One({"c:spPr"})>>, {}, {}),
  El("c:minorGridlines", <<One({"c:spPr"})>>, {}, {}),
  El("c:dropLines", <<One({"c:spPr"})>>, {}, {}),
  El("c:hiLowLines", <<One({"c:spPr"})>>, {}, {}),
  El("c:upDownBars", <<One({"c:gapWidth"}), One({"c:upBars"}), One({"c:downBars"})>>, {}, {}),
  El("c:upBars", <<One({"c:spPr"})>>, {}, {}),
  El("c:downBars", <<One({"c:spPr"})>>, {}, {}),
  El("c:dTable", <<One({"c:showHorzBorder"}), One({"c:showVertBorder"}), One({"c:showOutline"}), One({"c:showKeys"}), One({"c:spPr"}), One({"c:txPr"})>>, {}, {}),
  El("c:dispUnits", <<One({"c:custUnit", "c:builtInUnit"}), One({"c:dispUnitsLbl"})>>, {}, {}),
  El("c:dispUnitsLbl", <<One({"c:layout"}), One({"c:tx"}), One({"c:spPr"}), One({"c:txPr"})>>, {}, {}),
  El("c:legend", <<One({"c:legendPos"}), Many({"c:legendEntry"}), One({"c:layout"}), One({"c:overlay"}), One({"c:spPr"}), One({"c:txPr"})>>, {}, {}),
  El("c:legendEntry", <<Must({"c:idx"}), One({"c:delete"}), One({"c:txPr"})>>, {}, {}),
  El("c:marker", <<One({"c:symbol"}), One({"c:size"}), One({"c:spPr"})>>, {"val"}, {}),
  El("c:numFmt", << >>, {"formatCode", "sourceLinked"}, {"formatCode"}),
  El("c:extLst<c:chart", <<Many({"c:ext"})>>, {}, {}),
  El("c:extLst<c:ser", <<Many({"c:ext"})>>, {}, {}),
  El("c:extLst<c:dLbls", <<Many({"c:ext"})>>, {}, {}),
  El("c:ext{56B9EC1D-385E-4148-901F-78D8002777C0}", <<Must({"c16r3:dataDisplayOptions16"})>>, {"uri"}, {"uri"}),
  El("c:ext{6F2FDCE9-48DA-4B69-8628-5D25D57E5C99}", <<Must({"c14:invertSolidFillFmt"})>>, {"uri"}, {"uri"}),
  El("c:ext{CE6537A1-D6FC-4f65-9D91-7224C49458BB}", <<Must({"c15:showLeaderLines"})>>, {"uri"}, {"uri"}),
  El("c16r3:dataDisplayOptions16", <<One({"c16r3:dispNaAsBlank"})>>, {}, {}),
  El("c16r3:dispNaAsBlank", << >>, {"val"}, {}),
  El("c14:invertSolidFillFmt", <<One({"c14:spPr"})>>, {}, {}),
  El("c15:showLeaderLines", << >>, {"val"}, {}),
  El("c:axId", << >>, {"val"}, {"val"}),
  El("c:idx", << >>, {"val"}, {"val"}),
  El("c:order", << >>, {"val"}, {"val"}),
  El("c:crossAx", << >>, {"val"}, {"val"}),
  El("c:axPos", << >>, {"val"}, {"val"}),
  El("c:max", << >>, {"val"}, {"val"}),
  El("c:min", << >>, {"val"}, {"val"}),
  El("c:logBase", << >>, {"val"}, {"val"}),
  El("c:majorUnit", << >>, {"val"}, {"val"}),
  El("c:minorUnit", << >>, {"val"}, {"val"}),
  El("c:crosses", << >>, {"val"}, {"val"}),
  El("c:crossesAt", << >>, {"val"}, {"val"}),
  El("c:tickMarkSkip", << >>, {"val"}, {"val"}),
  El("c:tickLblSkip", << >>, {"val"}, {"val"}),
  El("c:x", << >>, {"val"}, {"val"}),
  El("c:y", << >>, {"val"}, {"val"}),
  El("c:w", << >>, {"val"}, {"val"}),
  El("c:h", << >>, {"val"}, {"val"}),
  El("c:intercept", << >>, {"val"}, {"val"}),
  El("c:forward", << >>, {"val"}, {"val"}),
  El("c:backward", << >>, {"val"}, {"val"}),
  El("c:symbol", << >>, {"val"}, {"val"}),
  El("c:dLblPos", << >>, {"val"}, {"val"}),
  El("c:lblAlgn", << >>, {"val"}, {"val"}),
  El("c:orientation", << >>, {"val"}, {"val"}),
  El("c:auto", << >>, {"val"}, {}),
  El("c:autoTitleDeleted", << >>, {"val"}, {}),
  El("c:barDir", << >>, {"val"}, {}),
  El("c:builtInUnit", << >>, {"val"}, {}),
  El("c:crossBetween", << >>, {"val"}, {}),
  El("c:delete", << >>, {"val"}, {}),
  El("c:dispBlanksAs", << >>, {"val"}, {}),
  El("c:dispEq", << >>, {"val"}, {}),
  El("c:dispRSqr", << >>, {"val"}, {}),
  El("c:errBarType", << >>, {"val"}, {}),
  El("c:errDir", << >>, {"val"}, {}),
  El("c:errValType", << >>, {"val"}, {}),
  El("c:firstSliceAng", << >>, {"val"}, {}),
  El("c:gapWidth", << >>, {"val"}, {}),
  El("c:grouping", << >>, {"val"}, {}),
  El("c:holeSize", << >>, {"val"}, {}),
  El("c:invertIfNegative", << >>, {"val"}, {}),
  El("c:layoutTarget", << >>, {"val"}, {}),
  El("c:lblOffset", << >>, {"val"}, {}),
  El("c:legendPos", << >>, {"val"}, {}),
  El("c:majorTickMark", << >>, {"val"}, {}),
  El("c:minorTickMark", << >>, {"val"}, {}),
  El("c:noEndCap", << >>, {"val"}, {}),
  El("c:overlap", << >>, {"val"}, {}),
  El("c:overlay", << >>, {"val"}, {}),
  El("c:period", << >>, {"val"}, {}),
  El("c:plotVisOnly", << >>, {"val"}, {}),
  El("c:radarStyle", << >>, {"val"}, {}),
  El("c:scatterStyle", << >>, {"val"}, {}),
  El("c:showCatName", << >>, {"val"}, {}),
  El("c:showHorzBorder", << >>, {"val"}, {}),
  El("c:showKeys", << >>, {"val"}, {}),
  El("c:showLeaderLines", << >>, {"val"}, {}),
  El("c:showLegendKey", << >>, {"val"}, {}),
  El("c:showOutline", << >>, {"val"}, {}),
  El("c:showPercent", << >>, {"val"}, {}),
  El("c:showSerName", << >>, {"val"}, {}),
  El("c:showVal", << >>, {"val"}, {}),
  El("c:showVertBorder", << >>, {"val"}, {}),
  El("c:size", << >>, {"val"}, {}),
  El("c:smooth", << >>, {"val"}, {}),
  El("c:tickLblPos", << >>, {"val"}, {}),
  El("c:trendlineType", << >>, {"val"}, {}),
  El("c:varyColors", << >>, {"val"}, {}),
  El("c:xMode", << >>, {"val"}, {}),
  El("c:yMode", << >>, {"val"}, {}),
  Bag("cp:coreProperties", {"dc:creator", "cp:lastModifiedBy", "dcterms:created", "dcterms:modified", "cp:contentStatus", "dc:title", "dc:subject", "cp:keywords", "dc:description", "cp:category"}, {}, {}),
  El("cp:lastModifiedBy", << >>, {}, {}),
  El("cp:contentStatus", << >>, {}, {}),
  El("cp:keywords", << >>, {}, {}),
  El("cp:category", << >>, {}, {}),
  El("dc:creator", << >>, {}, {}),
  El("dc:title", << >>, {}, {}),
  El("dc:subject", << >>, {}, {}),
  El("dc:description", << >>, {}, {}),
  El("dcterms:created", << >>, {"xsi:type"}, {"xsi:type"}),
  El("dcterms:modified", << >>, {"xsi:type"}, {"xsi:type"}),
  Bag("ep:Properties", {"ep:Template", "ep:Manager", "ep:Company", "ep:Pages", "ep:Application", "ep:DocSecurity", "ep:ScaleCrop", "ep:HeadingPairs", "ep:TitlesOfParts", "ep:LinksUpToDate", "ep:SharedDoc", "ep:HyperlinkBase", "ep:HyperlinksChanged", "ep:AppVersion"}, {}, {}),
  El("ep:Manager", << >>, {}, {}),
  El("ep:Company", << >>, {}, {}),
  El("ep:Application", << >>, {}, {}),
  El("ep:DocSecurity", << >>, {}, {}),
  El("ep:ScaleCrop", << >>, {}, {}),
  El("ep:LinksUpToDate", << >>, {}, {}),
  El("ep:SharedDoc", << >>, {}, {}),
  El("ep:HyperlinkBase", << >>, {}, {}),
  El("ep:HyperlinksChanged", << >>, {}, {}),
  El("ep:AppVersion", << >>, {}, {}),
  El("ep:HeadingPairs", <<Must({"vt:vector"})>>, {}, {}),
  El("ep:TitlesOfParts", <<Must({"vt:vector"})>>, {}, {}),
  El("op:Properties", <<Many({"op:property"})>>, {}, {}),
  El("op:property", <<Must({"vt:filetime", "vt:lpwstr", "vt:r8", "vt:i4", "vt:bool"})>>, {"fmtid", "pid", "name"}, {"fmtid", "pid", "name"}),
  El("vt:vector", <<Many({"vt:variant", "vt:lpstr"})>>, {"baseType", "size"}, {"baseType", "size"}),
  El("vt:variant", <<Must({"vt:i4", "vt:lpstr"})>>, {}, {}),
  El("vt:i4", << >>, {}, {}),
  El("vt:r8", << >>, {}, {}),
  El("vt:bool", << >>, {}, {}),
  El("vt:lpstr", << >>, {}, {}),
  El("vt:lpwstr", << >>, {}, {}),
  El("vt:filetime", << >>, {}, {}),
  El("ct:Types", <<Many({"ct:Default", "ct:Override"})>>, {}, {}),
  El("ct:Default", << >>, {"Extension", "ContentType"}, {"Extension", "ContentType"}),
  El("ct:Override", << >>, {"PartName", "ContentType"}, {"PartName", "ContentType"}),
  El("pr:Relationships", <<Many({"pr:Relationship"})>>, {}, {}),
  El("pr:Relationship", << >>, {"Id", "Type", "Target", "TargetMode"}, {"Id", "Type", "Target"}),
  El("c:date1904", << >>, {"val"}, {}),
  El("c:roundedCorners", << >>, {"val"}, {}),
  El("c:clrMapOvr", << >>, {"val"}, {}),
  El("c:pivotSource", << >>, {"val"}, {}),
  El("c:externalData", << >>, {"val"}, {}),
  El("c:userShapes", << >>, {"val"}, {}),
  El("c:chartObject", << >>, {"val"}, {}),
  El("c:data", << >>, {"val"}, {}),
  El("c:formatting", << >>, {"val"}, {}),
  El("c:selection", << >>, {"val"}, {}),
  El("c:userInterface", << >>, {"val"}, {}),
  El("c:pivotFmts", << >>, {"val"}, {}),
  El("c:view3D", << >>, {"val"}, {}),
  El("c:floor", << >>, {"val"}, {}),
  El("c:sideWall", << >>, {"val"}, {}),
  El("c:backWall", << >>, {"val"}, {}),
  El("c:wMode", << >>, {"val"}, {}),
  El("c:hMode", << >>, {"val"}, {}),
  El("c:serLines", << >>, {"val"}, {}),
  El("c:pictureOptions", << >>, {"val"}, {}),
  El("c:shape", << >>, {"val"}, {}),
  El("c:explosion", << >>, {"val"}, {}),
  El("c:bubble3D", << >>, {"val"}, {}),
  El("c:showBubbleSize", << >>, {"val"}, {}),
  El("c:leaderLines", << >>, {"val"}, {}),
  El("c:multiLvlStrRef", << >>, {"val"}, {}),
  El("c:numLit", << >>, {"val"}, {}),
  El("c:strLit", << >>, {"val"}, {}),
  El("c:noMultiLvlLbl", << >>, {"val"}, {}),
  El("c:baseTimeUnit", << >>, {"val"}, {}),
  El("c:majorTimeUnit", << >>, {"val"}, {}),
  El("c:minorTimeUnit", << >>, {"val"}, {}),
  El("c:custUnit", << >>, {"val"}, {})
>>

Keys == {Elements[k].key : k \in DOMAIN Elements}
\* The row of each element, and the rank of each of its children.
Rule == [key \in Keys |-> LET e == Elements[CHOOSE k \in DOMAIN Elements : Elements[k].key = key]
                              all == UNION {e.ranks[r].names : r \in DOMAIN e.ranks}
                          IN e @@ [rank |-> [n \in all |-> CHOOSE r \in DOMAIN e.ranks : n \in e.ranks[r].names]]]

\* kids: names of the children and "1" or "n" for one or several next to each
\* other, alternating.
Name(kids, j) == kids[2 * j - 1]
Times(kids, j) == kids[2 * j]
N(kids) == Len(kids) \div 2
Names(kids) == {Name(kids, j) : j \in 1 .. N(kids)}

Fault(key, kids) ==
    IF key \notin Keys THEN "unknown element"
    ELSE LET e == Rule[key]
             known == IF e.bag # {} THEN e.bag ELSE DOMAIN e.rank
         IN IF Names(kids) \ known # {} THEN "unknown child"
            ELSE IF e.bag # {} THEN IF Cardinality(Names(kids)) = N(kids) /\ \A j \in 1 .. N(kids) : Times(kids, j) = "1" THEN "" ELSE "more than one"
            ELSE IF \E j \in 1 .. N(kids) : Times(kids, j) = "n" /\ ~e.ranks[e.rank[Name(kids, j)]].many THEN "more than one"
            ELSE IF \E j \in 1 .. N(kids) - 1 : LET a == e.rank[Name(kids, j)]
                                                    b == e.rank[Name(kids, j + 1)]
                                                IN a > b \/ (a = b /\ ~e.ranks[a].many) THEN "order"
            ELSE IF \E r \in DOMAIN e.ranks : e.ranks[r].need /\ e.ranks[r].names \cap Names(kids) = {} THEN "missing"
            ELSE ""

AttrFault(key, as) ==
    IF key \notin Keys THEN ""
    ELSE IF as \ Rule[key].attrs # {} THEN "unknown attribute"
    ELSE IF Rule[key].must \ as # {} THEN "missing attribute" ELSE ""

\* A rule never asks for what it does not allow, and each name has one rank.
SchemaOk ==
    /\ Cardinality(Keys) = Len(Elements)
    /\ \A k \in DOMAIN Elements : /\ Elements[k].must \subseteq Elements[k].attrs
                                   /\ \A a, b \in DOMAIN Elements[k].ranks : a # b => Elements[k].ranks[a].names \cap Elements[k].ranks[b].names = {}
=============================================================================
