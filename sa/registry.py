"""property id -> (module, function)"""
CHECKS = {
    "P01": ("families", "check_links"),
    "P02": ("families", "check_families"),
    "P03": ("families", "check_fused"),
    "P04": ("families", "check_loglik"),
    "P05": ("inference", "check_information"),
    "P06": ("postfit", "check_covariance"),
    "P07": ("predict", "check_predictions"),
    "P08": ("predict", "check_criteria"),
    "P09": ("fitting", "check_fit"),
    "P10": ("fitting", "check_settings"),
    "P11": ("irls", "check_irls"),
    "P12": ("coorddesc", "check_kernels"),
    "P13": ("effects", "check_effects"),
    "P14": ("cv", "check_cv"),
    "P15": ("alphapath", "check_path"),
    "P16": ("inputs", "check_inputs"),
    "P17": ("options", "check_options"),
    "P18": ("monotonic", "check_monotonic"),
    "P19": ("frames", "check_frames"),
}
