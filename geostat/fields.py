"""Field triples (P, Q1, Q2): Q1 | P-1, Q2 | P+1; -1 is a non-residue and 2..23 are residues in each."""
FIELDS = [
    (9885461550035370804514801081686959, 177705695804159, 225456677489039),
    (5480575649244260966008656826679879, 262598466481511, 153374062223399),
    (413453588112053451021088605575039, 209898926222831, 202288429948799),
    (1357902355354604742272361568217951, 185341546240751, 161416367110319),
    (1712596697742446367209810486273879, 269182254595271, 208624701565199),
    (1018738342035367108787583183663791, 260562558426719, 276734345334191),
    (456829713920419329209289825069359, 220661217294839, 223879858539431),
    (3193630507989612604858254372385391, 203765089508111, 191286536105279),
    (1800316155596638891585392414642671, 225888711309719, 276504219672119),
    (2725167384833650055964945179663711, 230681789345999, 256703217880919),
    (2945923604011884260820103586609231, 163473936575351, 236971958584919),
    (1899496186079258386891490142394511, 193232024337959, 241593174736031),
    (4528338362554893097071260455364711, 252007037663471, 235201895510711),
    (219982237860419512905738652546631, 147833861958719, 239450195762879),
    (11466408429905529320381951563794719, 274492658969231, 170168208117599),
    (1504348786526827628771663186192039, 148963646646239, 252128410757159),
]
