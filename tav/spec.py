"""What is documented about every result: module, class, accessor, fill value, units, one-shot function, feature columns."""
from fractions import Fraction

NEAR = "nearest"
NOFILL = "none"

# class -> (module, constructor inputs, [(parameter, kind)])   kind: int (window >= 1), int0 (offset >= 0), real, bool, optint
CLASSES = {
    "RSIIndicator": ("momentum", "close", [("window", "int")]),
    "TSIIndicator": ("momentum", "close", [("window_slow", "int"), ("window_fast", "int")]),
    "UltimateOscillator": ("momentum", "high low close", [("window1", "int"), ("window2", "int"), ("window3", "int"),
                                                           ("weight1", "real"), ("weight2", "real"), ("weight3", "real")]),
    "StochasticOscillator": ("momentum", "high low close", [("window", "int"), ("smooth_window", "int")]),
    "KAMAIndicator": ("momentum", "close", [("window", "int"), ("pow1", "int"), ("pow2", "int")]),
    "ROCIndicator": ("momentum", "close", [("window", "int")]),
    "AwesomeOscillatorIndicator": ("momentum", "high low", [("window1", "int"), ("window2", "int")]),
    "WilliamsRIndicator": ("momentum", "high low close", [("lbp", "int")]),
    "StochRSIIndicator": ("momentum", "close", [("window", "int"), ("smooth1", "int"), ("smooth2", "int")]),
    "PercentagePriceOscillator": ("momentum", "close", [("window_slow", "int"), ("window_fast", "int"), ("window_sign", "int")]),
    "PercentageVolumeOscillator": ("momentum", "volume", [("window_slow", "int"), ("window_fast", "int"), ("window_sign", "int")]),
    "AroonIndicator": ("trend", "high low", [("window", "int")]),
    "MACD": ("trend", "close", [("window_slow", "int"), ("window_fast", "int"), ("window_sign", "int")]),
    "EMAIndicator": ("trend", "close", [("window", "int")]),
    "SMAIndicator": ("trend", "close", [("window", "int")]),
    "WMAIndicator": ("trend", "close", [("window", "int")]),
    "TRIXIndicator": ("trend", "close", [("window", "int")]),
    "MassIndex": ("trend", "high low", [("window_fast", "int"), ("window_slow", "int")]),
    "IchimokuIndicator": ("trend", "high low", [("window1", "int"), ("window2", "int"), ("window3", "int"), ("visual", "bool")]),
    "KSTIndicator": ("trend", "close", [(x, "int") for x in (
        "roc1", "roc2", "roc3", "roc4", "window1", "window2", "window3", "window4", "nsig")]),
    "DPOIndicator": ("trend", "close", [("window", "int")]),
    "CCIIndicator": ("trend", "high low close", [("window", "int"), ("constant", "real")]),
    "ADXIndicator": ("trend", "high low close", [("window", "int")]),
    "VortexIndicator": ("trend", "high low close", [("window", "int")]),
    "PSARIndicator": ("trend", "high low close", [("step", "real"), ("max_step", "real")]),
    "STCIndicator": ("trend", "close", [("window_slow", "int"), ("window_fast", "int"), ("cycle", "int"),
                                        ("smooth1", "int"), ("smooth2", "int")]),
    "AverageTrueRange": ("volatility", "high low close", [("window", "int")]),
    "BollingerBands": ("volatility", "close", [("window", "int"), ("window_dev", "real")]),
    "KeltnerChannel": ("volatility", "high low close", [("window", "int"), ("window_atr", "int"), ("original_version", "bool"),
                                                         ("multiplier", "real")]),
    "DonchianChannel": ("volatility", "high low close", [("window", "int"), ("offset", "int0")]),
    "UlcerIndex": ("volatility", "close", [("window", "int")]),
    "AccDistIndexIndicator": ("volume", "high low close volume", []),
    "OnBalanceVolumeIndicator": ("volume", "close volume", []),
    "ChaikinMoneyFlowIndicator": ("volume", "high low close volume", [("window", "int")]),
    "ForceIndexIndicator": ("volume", "close volume", [("window", "int")]),
    "EaseOfMovementIndicator": ("volume", "high low volume", [("window", "int")]),
    "VolumePriceTrendIndicator": ("volume", "close volume", [("smoothing_factor", "optint"), ("dropnans", "bool")]),
    "NegativeVolumeIndexIndicator": ("volume", "close volume", []),
    "MFIIndicator": ("volume", "high low close volume", [("window", "int")]),
    "VolumeWeightedAveragePrice": ("volume", "high low close volume", [("window", "int")]),
    "DailyReturnIndicator": ("others", "close", []),
    "DailyLogReturnIndicator": ("others", "close", []),
    "CumulativeReturnIndicator": ("others", "close", []),
}

# documented defaults of the constructors
DEFAULTS = {
    "RSIIndicator": dict(window=14), "TSIIndicator": dict(window_slow=25, window_fast=13),
    "UltimateOscillator": dict(window1=7, window2=14, window3=28, weight1=4.0, weight2=2.0, weight3=1.0),
    "StochasticOscillator": dict(window=14, smooth_window=3), "KAMAIndicator": dict(window=10, pow1=2, pow2=30),
    "ROCIndicator": dict(window=12), "AwesomeOscillatorIndicator": dict(window1=5, window2=34),
    "WilliamsRIndicator": dict(lbp=14), "StochRSIIndicator": dict(window=14, smooth1=3, smooth2=3),
    "PercentagePriceOscillator": dict(window_slow=26, window_fast=12, window_sign=9),
    "PercentageVolumeOscillator": dict(window_slow=26, window_fast=12, window_sign=9),
    "AroonIndicator": dict(window=25), "MACD": dict(window_slow=26, window_fast=12, window_sign=9),
    "EMAIndicator": dict(window=14), "SMAIndicator": {}, "WMAIndicator": dict(window=9), "TRIXIndicator": dict(window=15),
    "MassIndex": dict(window_fast=9, window_slow=25),
    "IchimokuIndicator": dict(window1=9, window2=26, window3=52, visual=False),
    "KSTIndicator": dict(roc1=10, roc2=15, roc3=20, roc4=30, window1=10, window2=10, window3=10, window4=15, nsig=9),
    "DPOIndicator": dict(window=20), "CCIIndicator": dict(window=20, constant=0.015), "ADXIndicator": dict(window=14),
    "VortexIndicator": dict(window=14), "PSARIndicator": dict(step=0.02, max_step=0.2),
    "STCIndicator": dict(window_slow=50, window_fast=23, cycle=10, smooth1=3, smooth2=3),
    "AverageTrueRange": dict(window=14), "BollingerBands": dict(window=20, window_dev=2),
    "KeltnerChannel": dict(window=20, window_atr=10, original_version=True, multiplier=2),
    "DonchianChannel": dict(window=20, offset=0), "UlcerIndex": dict(window=14),
    "AccDistIndexIndicator": {}, "OnBalanceVolumeIndicator": {}, "ChaikinMoneyFlowIndicator": dict(window=20),
    "ForceIndexIndicator": dict(window=13), "EaseOfMovementIndicator": dict(window=14),
    "VolumePriceTrendIndicator": dict(smoothing_factor=None, dropnans=False), "NegativeVolumeIndexIndicator": {},
    "MFIIndicator": dict(window=14), "VolumeWeightedAveragePrice": dict(window=14),
    "DailyReturnIndicator": {}, "DailyLogReturnIndicator": {}, "CumulativeReturnIndicator": {},
}


class Res:
    """one published result.  unit = (price power, volume power) or None; shift: 0, 1 or None (exempt); rng: (lo, hi)."""

    def __init__(self, cls, acc, fill, unit, shift, rng=(None, None), fn=None, extra=None):
        self.cls, self.acc, self.fill, self.unit, self.shift, self.rng = cls, acc, fill, unit, shift, rng
        self.mod, ins, self.params = CLASSES[cls]
        self.inputs = ins.split()
        self.fn = acc if fn is None else fn
        self.extra = extra or {}           # constructor arguments the one-shot function fixes

    @property
    def name(self):
        return "%s.%s" % (self.cls, self.acc)

    @property
    def group(self):
        if self.cls == "PSARIndicator":
            return "C22"
        return {"momentum": "C17", "trend": "C18", "volatility": "C19", "volume": "C20", "others": "C21"}[self.mod]


P0, P1, P2 = (0, 0), (1, 0), (2, 0)
V1 = (0, 1)
R = Res
RESULTS = [
    R("RSIIndicator", "rsi", 50, P0, 0, (0, 100)),
    R("TSIIndicator", "tsi", 0, P0, 0, (-100, 100)),
    R("UltimateOscillator", "ultimate_oscillator", 50, P0, 0, (0, 100)),
    R("StochasticOscillator", "stoch", 50, P0, 0, (0, 100)),
    R("StochasticOscillator", "stoch_signal", 50, P0, 0, (0, 100)),
    R("KAMAIndicator", "kama", "close", P1, 1),
    R("ROCIndicator", "roc", 0, P0, None),
    R("AwesomeOscillatorIndicator", "awesome_oscillator", 0, P1, 0),
    R("WilliamsRIndicator", "williams_r", -50, P0, 0, (-100, 0)),
    R("StochRSIIndicator", "stochrsi", 0, P0, 0, (0, 1)),
    R("StochRSIIndicator", "stochrsi_k", 0, P0, 0, (0, 1)),
    R("StochRSIIndicator", "stochrsi_d", 0, P0, 0, (0, 1)),
    R("PercentagePriceOscillator", "ppo", 0, P0, None),
    R("PercentagePriceOscillator", "ppo_signal", 0, P0, None),
    R("PercentagePriceOscillator", "ppo_hist", 0, P0, None),
    R("PercentageVolumeOscillator", "pvo", 0, P0, 0),
    R("PercentageVolumeOscillator", "pvo_signal", 0, P0, 0),
    R("PercentageVolumeOscillator", "pvo_hist", 0, P0, 0),
    R("AroonIndicator", "aroon_up", 0, P0, 0, (0, 100)),
    R("AroonIndicator", "aroon_down", 0, P0, 0, (0, 100)),
    R("AroonIndicator", "aroon_indicator", 0, P0, 0, (-100, 100), fn=""),
    R("MACD", "macd", 0, P1, 0, extra={"window_sign": 9}),
    R("MACD", "macd_signal", 0, P1, 0),
    R("MACD", "macd_diff", 0, P1, 0),
    R("EMAIndicator", "ema_indicator", NOFILL, P1, 1),
    R("SMAIndicator", "sma_indicator", NOFILL, P1, 1),
    R("WMAIndicator", "wma", 0, P1, 1, fn="wma_indicator"),
    R("TRIXIndicator", "trix", 0, P0, None),
    R("MassIndex", "mass_index", 0, P0, 0),
    R("IchimokuIndicator", "ichimoku_conversion_line", NEAR, P1, 1, extra={"window3": 52}),
    R("IchimokuIndicator", "ichimoku_base_line", NEAR, P1, 1, extra={"window3": 52}),
    R("IchimokuIndicator", "ichimoku_a", NEAR, P1, 1, extra={"window3": 52}),
    R("IchimokuIndicator", "ichimoku_b", NEAR, P1, 1, extra={"window1": 9}),
    R("KSTIndicator", "kst", 0, P0, None, extra={"nsig": 9}),
    R("KSTIndicator", "kst_sig", 0, P0, None),
    R("KSTIndicator", "kst_diff", 0, P0, None, fn=""),
    R("DPOIndicator", "dpo", 0, P1, 0),
    R("CCIIndicator", "cci", 0, P0, 0),
    R("ADXIndicator", "adx", 20, P0, 0, (0, 100)),
    R("ADXIndicator", "adx_pos", 20, P0, 0, (0, 100)),
    R("ADXIndicator", "adx_neg", 20, P0, 0, (0, 100)),
    R("VortexIndicator", "vortex_indicator_pos", 1, P0, 0),
    R("VortexIndicator", "vortex_indicator_neg", 1, P0, 0),
    R("VortexIndicator", "vortex_indicator_diff", 0, P0, 0, fn=""),
    R("PSARIndicator", "psar", NEAR, P1, 1, fn=""),
    R("PSARIndicator", "psar_up", NEAR, P1, 1),
    R("PSARIndicator", "psar_down", NEAR, P1, 1),
    R("PSARIndicator", "psar_up_indicator", NOFILL, P0, 0, (0, 1)),
    R("PSARIndicator", "psar_down_indicator", NOFILL, P0, 0, (0, 1)),
    R("STCIndicator", "stc", 0, P0, 0, (0, 100)),
    R("AverageTrueRange", "average_true_range", 0, P1, 0, (0, None)),
    R("BollingerBands", "bollinger_mavg", NEAR, P1, 1, extra={"window_dev": 2}),
    R("BollingerBands", "bollinger_hband", NEAR, P1, 1),
    R("BollingerBands", "bollinger_lband", NEAR, P1, 1),
    R("BollingerBands", "bollinger_wband", 0, P0, None),
    R("BollingerBands", "bollinger_pband", 0, P0, 0),
    R("BollingerBands", "bollinger_hband_indicator", 0, P0, 0, (0, 1)),
    R("BollingerBands", "bollinger_lband_indicator", 0, P0, 0, (0, 1)),
    R("KeltnerChannel", "keltner_channel_mband", NEAR, P1, 1, extra={"multiplier": 2}),
    R("KeltnerChannel", "keltner_channel_hband", NEAR, P1, 1, extra={"multiplier": 2}),
    R("KeltnerChannel", "keltner_channel_lband", NEAR, P1, 1, extra={"multiplier": 2}),
    R("KeltnerChannel", "keltner_channel_wband", 0, P0, None, extra={"multiplier": 2}),
    R("KeltnerChannel", "keltner_channel_pband", 0, P0, 0, extra={"multiplier": 2}),
    R("KeltnerChannel", "keltner_channel_hband_indicator", 0, P0, 0, (0, 1), extra={"multiplier": 2}),
    R("KeltnerChannel", "keltner_channel_lband_indicator", 0, P0, 0, (0, 1), extra={"multiplier": 2}),
    R("DonchianChannel", "donchian_channel_hband", NEAR, P1, 1),
    R("DonchianChannel", "donchian_channel_lband", NEAR, P1, 1),
    R("DonchianChannel", "donchian_channel_mband", NEAR, P1, 1),
    R("DonchianChannel", "donchian_channel_wband", 0, P0, None),
    R("DonchianChannel", "donchian_channel_pband", 0, P0, 0),
    R("UlcerIndex", "ulcer_index", 0, P0, None, (0, None)),
    R("AccDistIndexIndicator", "acc_dist_index", 0, V1, 0),
    R("OnBalanceVolumeIndicator", "on_balance_volume", 0, V1, 0),
    R("ChaikinMoneyFlowIndicator", "chaikin_money_flow", 0, P0, 0, (-1, 1)),
    R("ForceIndexIndicator", "force_index", 0, (1, 1), 0),
    R("EaseOfMovementIndicator", "ease_of_movement", 0, (2, -1), 0),
    R("EaseOfMovementIndicator", "sma_ease_of_movement", 0, (2, -1), 0),
    R("VolumePriceTrendIndicator", "volume_price_trend", 0, V1, None),
    R("NegativeVolumeIndexIndicator", "negative_volume_index", 1000, P0, None),
    R("MFIIndicator", "money_flow_index", 50, P0, None, (0, 100)),
    R("VolumeWeightedAveragePrice", "volume_weighted_average_price", 0, P1, 1),
    R("DailyReturnIndicator", "daily_return", 0, P0, None),
    R("DailyLogReturnIndicator", "daily_log_return", 0, P0, None),
    R("CumulativeReturnIndicator", "cumulative_return", NEAR, P0, None),
]
BY = {(r.cls, r.acc): r for r in RESULTS}

# upper >= middle >= lower
ORDER = [("BollingerBands", "bollinger_hband", "bollinger_mavg"), ("BollingerBands", "bollinger_mavg", "bollinger_lband"),
         ("KeltnerChannel", "keltner_channel_hband", "keltner_channel_mband"),
         ("KeltnerChannel", "keltner_channel_mband", "keltner_channel_lband"),
         ("DonchianChannel", "donchian_channel_hband", "donchian_channel_mband"),
         ("DonchianChannel", "donchian_channel_mband", "donchian_channel_lband")]

# feature column (without prefix) -> (class, accessor, arguments that differ from the class defaults), vectorized?
COLUMNS = {
    "volume": [
        ("volume_adi", "AccDistIndexIndicator", "acc_dist_index", {}, True),
        ("volume_obv", "OnBalanceVolumeIndicator", "on_balance_volume", {}, True),
        ("volume_cmf", "ChaikinMoneyFlowIndicator", "chaikin_money_flow", {}, True),
        ("volume_fi", "ForceIndexIndicator", "force_index", {}, True),
        ("volume_em", "EaseOfMovementIndicator", "ease_of_movement", {}, True),
        ("volume_sma_em", "EaseOfMovementIndicator", "sma_ease_of_movement", {}, True),
        ("volume_vpt", "VolumePriceTrendIndicator", "volume_price_trend", {}, True),
        ("volume_vwap", "VolumeWeightedAveragePrice", "volume_weighted_average_price", {}, True),
        ("volume_mfi", "MFIIndicator", "money_flow_index", {}, False),
        ("volume_nvi", "NegativeVolumeIndexIndicator", "negative_volume_index", {}, False),
    ],
    "volatility": [
        ("volatility_bbm", "BollingerBands", "bollinger_mavg", {}, True),
        ("volatility_bbh", "BollingerBands", "bollinger_hband", {}, True),
        ("volatility_bbl", "BollingerBands", "bollinger_lband", {}, True),
        ("volatility_bbw", "BollingerBands", "bollinger_wband", {}, True),
        ("volatility_bbp", "BollingerBands", "bollinger_pband", {}, True),
        ("volatility_bbhi", "BollingerBands", "bollinger_hband_indicator", {}, True),
        ("volatility_bbli", "BollingerBands", "bollinger_lband_indicator", {}, True),
        ("volatility_kcc", "KeltnerChannel", "keltner_channel_mband", {"window": 10}, True),
        ("volatility_kch", "KeltnerChannel", "keltner_channel_hband", {"window": 10}, True),
        ("volatility_kcl", "KeltnerChannel", "keltner_channel_lband", {"window": 10}, True),
        ("volatility_kcw", "KeltnerChannel", "keltner_channel_wband", {"window": 10}, True),
        ("volatility_kcp", "KeltnerChannel", "keltner_channel_pband", {"window": 10}, True),
        ("volatility_kchi", "KeltnerChannel", "keltner_channel_hband_indicator", {"window": 10}, True),
        ("volatility_kcli", "KeltnerChannel", "keltner_channel_lband_indicator", {"window": 10}, True),
        ("volatility_dcl", "DonchianChannel", "donchian_channel_lband", {}, True),
        ("volatility_dch", "DonchianChannel", "donchian_channel_hband", {}, True),
        ("volatility_dcm", "DonchianChannel", "donchian_channel_mband", {}, True),
        ("volatility_dcw", "DonchianChannel", "donchian_channel_wband", {}, True),
        ("volatility_dcp", "DonchianChannel", "donchian_channel_pband", {}, True),
        ("volatility_atr", "AverageTrueRange", "average_true_range", {"window": 10}, False),
        ("volatility_ui", "UlcerIndex", "ulcer_index", {}, False),
    ],
    "trend": [
        ("trend_macd", "MACD", "macd", {}, True),
        ("trend_macd_signal", "MACD", "macd_signal", {}, True),
        ("trend_macd_diff", "MACD", "macd_diff", {}, True),
        ("trend_sma_fast", "SMAIndicator", "sma_indicator", {"window": 12}, True),
        ("trend_sma_slow", "SMAIndicator", "sma_indicator", {"window": 26}, True),
        ("trend_ema_fast", "EMAIndicator", "ema_indicator", {"window": 12}, True),
        ("trend_ema_slow", "EMAIndicator", "ema_indicator", {"window": 26}, True),
        ("trend_vortex_ind_pos", "VortexIndicator", "vortex_indicator_pos", {}, True),
        ("trend_vortex_ind_neg", "VortexIndicator", "vortex_indicator_neg", {}, True),
        ("trend_vortex_ind_diff", "VortexIndicator", "vortex_indicator_diff", {}, True),
        ("trend_trix", "TRIXIndicator", "trix", {}, True),
        ("trend_mass_index", "MassIndex", "mass_index", {}, True),
        ("trend_dpo", "DPOIndicator", "dpo", {}, True),
        ("trend_kst", "KSTIndicator", "kst", {}, True),
        ("trend_kst_sig", "KSTIndicator", "kst_sig", {}, True),
        ("trend_kst_diff", "KSTIndicator", "kst_diff", {}, True),
        ("trend_ichimoku_conv", "IchimokuIndicator", "ichimoku_conversion_line", {}, True),
        ("trend_ichimoku_base", "IchimokuIndicator", "ichimoku_base_line", {}, True),
        ("trend_ichimoku_a", "IchimokuIndicator", "ichimoku_a", {}, True),
        ("trend_ichimoku_b", "IchimokuIndicator", "ichimoku_b", {}, True),
        ("trend_stc", "STCIndicator", "stc", {}, True),
        ("trend_adx", "ADXIndicator", "adx", {}, False),
        ("trend_adx_pos", "ADXIndicator", "adx_pos", {}, False),
        ("trend_adx_neg", "ADXIndicator", "adx_neg", {}, False),
        ("trend_cci", "CCIIndicator", "cci", {}, False),
        ("trend_visual_ichimoku_a", "IchimokuIndicator", "ichimoku_a", {"visual": True}, False),
        ("trend_visual_ichimoku_b", "IchimokuIndicator", "ichimoku_b", {"visual": True}, False),
        ("trend_aroon_up", "AroonIndicator", "aroon_up", {}, False),
        ("trend_aroon_down", "AroonIndicator", "aroon_down", {}, False),
        ("trend_aroon_ind", "AroonIndicator", "aroon_indicator", {}, False),
        ("trend_psar_up", "PSARIndicator", "psar_up", {}, False),
        ("trend_psar_down", "PSARIndicator", "psar_down", {}, False),
        ("trend_psar_up_indicator", "PSARIndicator", "psar_up_indicator", {}, False),
        ("trend_psar_down_indicator", "PSARIndicator", "psar_down_indicator", {}, False),
    ],
    "momentum": [
        ("momentum_rsi", "RSIIndicator", "rsi", {}, True),
        ("momentum_stoch_rsi", "StochRSIIndicator", "stochrsi", {}, True),
        ("momentum_stoch_rsi_k", "StochRSIIndicator", "stochrsi_k", {}, True),
        ("momentum_stoch_rsi_d", "StochRSIIndicator", "stochrsi_d", {}, True),
        ("momentum_tsi", "TSIIndicator", "tsi", {}, True),
        ("momentum_uo", "UltimateOscillator", "ultimate_oscillator", {}, True),
        ("momentum_stoch", "StochasticOscillator", "stoch", {}, True),
        ("momentum_stoch_signal", "StochasticOscillator", "stoch_signal", {}, True),
        ("momentum_wr", "WilliamsRIndicator", "williams_r", {}, True),
        ("momentum_ao", "AwesomeOscillatorIndicator", "awesome_oscillator", {}, True),
        ("momentum_roc", "ROCIndicator", "roc", {}, True),
        ("momentum_ppo", "PercentagePriceOscillator", "ppo", {}, True),
        ("momentum_ppo_signal", "PercentagePriceOscillator", "ppo_signal", {}, True),
        ("momentum_ppo_hist", "PercentagePriceOscillator", "ppo_hist", {}, True),
        ("momentum_pvo", "PercentageVolumeOscillator", "pvo", {}, True),
        ("momentum_pvo_signal", "PercentageVolumeOscillator", "pvo_signal", {}, True),
        ("momentum_pvo_hist", "PercentageVolumeOscillator", "pvo_hist", {}, True),
        ("momentum_kama", "KAMAIndicator", "kama", {}, False),
    ],
    "others": [
        ("others_dr", "DailyReturnIndicator", "daily_return", {}, True),
        ("others_dlr", "DailyLogReturnIndicator", "daily_log_return", {}, True),
        ("others_cr", "CumulativeReturnIndicator", "cumulative_return", {}, True),
    ],
}
