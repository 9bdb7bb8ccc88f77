package h

// Registry maps harness names to functions (generated by tools/gen_registry.sh).
var Registry = map[string]func(){
	"C01MapLabel":   C01MapLabel,
	"C01Nearest":    C01Nearest,
	"C01Predict":    C01Predict,
	"C01Wide":       C01Wide,
	"C02Par":        C02Par,
	"C03DBA":        C03DBA,
	"C03DBALabels":  C03DBALabels,
	"C03Labels":     C03Labels,
	"C03Loss":       C03Loss,
	"C03LossLabels": C03LossLabels,
	"C03Wide":       C03Wide,
	"C04DBA":        C04DBA,
	"C04Reduce":     C04Reduce,
	"C04Wide":       C04Wide,
	"C05Loss":       C05Loss,
	"C05Wide":       C05Wide,
	"C06Buffer":     C06Buffer,
	"C06Wide":       C06Wide,
	"C07Combine":    C07Combine,
	"C07Copy":       C07Copy,
	"C07Dist":       C07Dist,
	"C07Exact":      C07Exact,
	"C07Wide":       C07Wide,
	"C08Cases":      C08Cases,
	"C08Dist":       C08Dist,
	"C08Formula":    C08Formula,
	"C08Grid":       C08Grid,
	"C09DTW":        C09DTW,
	"C09Outside":    C09Outside,
	"C09Self":       C09Self,
	"C09Symmetric":  C09Symmetric,
	"C09Wide":       C09Wide,
	"C10Average":    C10Average,
	"C10Copy":       C10Copy,
	"C10Resize":     C10Resize,
	"C10Shrink":     C10Shrink,
	"C10Wide":       C10Wide,
	"C11ByName":     C11ByName,
	"C11Given":      C11Given,
	"C11PP":         C11PP,
	"C11PPIter":     C11PPIter,
	"C11Rand":       C11Rand,
	"C11Wide":       C11Wide,
	"C12Choice":     C12Choice,
	"C12Wide":       C12Wide,
	"C13Loss":       C13Loss,
	"C13Step":       C13Step,
	"C13Wide":       C13Wide,
	"C14Step":       C14Step,
	"C15Store":      C15Store,
	"C15Wide":       C15Wide,
	"C16Stream":     C16Stream,
	"C16Wide":       C16Wide,
	"C17Commands":   C17Commands,
	"C18Clients":    C18Clients,
	"C19Budget":     C19Budget,
	"C19Conditions": C19Conditions,
	"C19Endless":    C19Endless,
	"C19Finishing":  C19Finishing,
	"C19Push":       C19Push,
	"C20Init":       C20Init,
	"C20Iter":       C20Iter,
	"C21Count":      C21Count,
	"C21Data":       C21Data,
	"C21Restart":    C21Restart,
	"C21Threshold":  C21Threshold,
	"C22Consistent": C22Consistent,
	"C22Race":       C22Race,
	"C22Real":       C22Real,
	"C22Snapshot":   C22Snapshot,
	"C23Blocked":    C23Blocked,
	"C23Exact":      C23Exact,
	"C23Failure":    C23Failure,
	"C23Order":      C23Order,
	"C24Kmeans":     C24Kmeans,
	"C24Mcmc":       C24Mcmc,
	"C24Plain":      C24Plain,
	"C24Streaming":  C24Streaming,
	"C25Cond":       C25Cond,
	"C25Later":      C25Later,
	"C25Paused":     C25Paused,
	"C25Refused":    C25Refused,
	"C25Run":        C25Run,
	"C25Wait":       C25Wait,
	"C26Alone":      C26Alone,
	"C26Copy":       C26Copy,
	"C26Race":       C26Race,
	"C26Stream":     C26Stream,
	"C27Late":       C27Late,
	"C28Dirac":      C28Dirac,
	"C28Pdf":        C28Pdf,
	"C28Sample":     C28Sample,
	"C29Data":       C29Data,
	"C29Duration":   C29Duration,
	"C29Pace":       C29Pace,
	"C29Paused":     C29Paused,
	"C30Kmeans":     C30Kmeans,
	"C30View":       C30View,
	"C31Repeat":     C31Repeat,
	"C31Sample":     C31Sample,
	"C32Seq":        C32Seq,
	"C32Shared":     C32Shared,
}
