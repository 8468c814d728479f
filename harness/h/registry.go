package h

// All lists the harness entry points by name.
var All = map[string]func(){
	"NumMatch":      NumMatch,
	"NumMatchLen":   NumMatchLen,
	"NumExact":      NumExact,
	"NumExactLen":   NumExactLen,
	"NumDelete":     NumDelete,
	"NumInplace":    NumInplace,
	"NumInplaceLen": NumInplaceLen,
	"NumEnum":       NumEnum,
	"NumFrozen":     NumFrozen,

	"IPGet":             IPGet,
	"IPDelete":          IPDelete,
	"IPEnum":            IPEnum,
	"IPEnumRoundTrip":   IPEnumRoundTrip,
	"IPInplace":         IPInplace,
	"IPFrozen":          IPFrozen,
	"IPUpdate":          IPUpdate,
	"IPMalformed":       IPMalformed,
	"IPMalformedUpdate": IPMalformedUpdate,
	"IPAddrIsHost":      IPAddrIsHost,

	"MapGet":     MapGet,
	"MapContent": MapContent,
	"MapEnum":    MapEnum,
	"MapPlain":   MapPlain,
	"MapFrozen":  MapFrozen,
	"MapCost":    MapCost,
	"MapDepth":   MapDepth,
	"MapDot":     MapDot,
	"MapDotText": MapDotText,
	"NumDot":     NumDot,

	"DomGet":     DomGet,
	"DomDelete":  DomDelete,
	"DomEnum":    DomEnum,
	"DomFrozen":  DomFrozen,
	"DomInplace": DomInplace,
	"DomDepth":   DomDepth,

	"LabelParse":  LabelParse,
	"LabelHuman":  LabelHuman,
	"NameParse":   NameParse,
	"NameSpell":   NameSpell,
	"NameDiffer":  NameDiffer,
	"NameWalk":    NameWalk,
	"NameReflect": NameReflect,

	"DiffIP":  DiffIP,
	"DiffMap": DiffMap,
	"DiffDom": DiffDom,

	"NumConc":      NumConc,
	"NumDuring":    NumDuring,
	"IPConc":       IPConc,
	"IPDuring":     IPDuring,
	"MapConc":      MapConc,
	"MapDuring":    MapDuring,
	"DomConc":      DomConc,
	"DomDuring":    DomDuring,
	"NameConc":     NameConc,
	"IPArgs":       IPArgs,
	"IPKeys":       IPKeys,
	"IPUpdateKeys": IPUpdateKeys,
}
