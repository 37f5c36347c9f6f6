"""Reference definitions of every published result, as documented.

One function per indicator; it returns the value of each result before gap filling.  With `fill` the moving windows start from the
first bar (partial windows), otherwise every window has to be full.  This file is read by the analyser's front end, like the
analysed package: it is never imported or executed."""
import numpy as np
import pandas as pd


# ------------------------------------------------------------------ building blocks
def mean_(x, n, fill):
    return x.rolling(n, min_periods=0 if fill else n).mean()


def sum_(x, n, fill):
    return x.rolling(n, min_periods=0 if fill else n).sum()


def max_(x, n, fill):
    return x.rolling(n, min_periods=1 if fill else n).max()


def min_(x, n, fill):
    return x.rolling(n, min_periods=1 if fill else n).min()


def expma(x, n, fill):
    """exponential average with smoothing factor 2/(n+1)"""
    return x.ewm(span=n, min_periods=0 if fill else n, adjust=False).mean()


def wilder(x, n, fill):
    """exponential average with smoothing factor 1/n"""
    return x.ewm(alpha=1 / n, min_periods=0 if fill else n, adjust=False).mean()


def prev(x, k=1):
    return x.shift(k)


def trange(high, low, close):
    """largest of high-low, |high - previous close|, |low - previous close|; the first bar has no previous close"""
    p = prev(close)
    first = high - low
    full = np.maximum(np.maximum(high - low, np.abs(high - p)), np.abs(low - p))
    return full.fillna(first)


def ratio_change(x, k):
    return (x - prev(x, k)) / prev(x, k)


# ------------------------------------------------------------------ momentum
def RSIIndicator(close, window, fill):
    change = close - prev(close)
    gain = change.where(change > 0, 0.0)
    loss = (-change).where(change < 0, 0.0)
    up = wilder(gain, window, fill)
    down = wilder(loss, window, fill)
    # no loss: 100 (also before the first row is published there is no value)
    rsi = 100 * up / (up + down)
    return {"rsi": rsi.where(down != 0, 100.0)}


def TSIIndicator(close, window_slow, window_fast, fill):
    change = close - prev(close)
    num = expma(expma(change, window_slow, fill), window_fast, fill)
    den = expma(expma(change.abs(), window_slow, fill), window_fast, fill)
    return {"tsi": 100 * num / den}


def UltimateOscillator(high, low, close, window1, window2, window3, weight1, weight2, weight3, fill):
    pc = prev(close)
    bp = close - np.minimum(low, pc)
    tr = trange(high, low, close)
    a1 = sum_(bp, window1, fill) / sum_(tr, window1, fill)
    a2 = sum_(bp, window2, fill) / sum_(tr, window2, fill)
    a3 = sum_(bp, window3, fill) / sum_(tr, window3, fill)
    return {"ultimate_oscillator":
            100 * (weight1 * a1 + weight2 * a2 + weight3 * a3) / (weight1 + weight2 + weight3)}


def StochasticOscillator(high, low, close, window, smooth_window, fill):
    hh = max_(high, window, fill)
    ll = min_(low, window, fill)
    k = 100 * (close - ll) / (hh - ll)
    return {"stoch": k, "stoch_signal": mean_(k, smooth_window, fill)}


def KAMAIndicator(close, window, pow1, pow2, fill):
    n = len(close)
    out = np.zeros(n)
    c = close.to_numpy()
    start = 0 if fill else window - 1
    fast = 2 / (pow1 + 1)
    slow = 2 / (pow2 + 1)
    steps = (close - close.shift(1, fill_value=close.iloc[0])).abs()
    volatility = sum_(steps, window, fill).to_numpy()
    change = (close - close.shift(window, fill_value=close.iloc[0])).abs().to_numpy()
    for i in range(n):
        if i < start:
            out[i] = np.nan
        elif i == start:
            out[i] = c[i]
        else:
            er = change[i] / volatility[i] if volatility[i] != 0 else 0.0
            sc = (er * (fast - slow) + slow) ** 2
            out[i] = out[i - 1] + sc * (c[i] - out[i - 1])
    return {"kama": pd.Series(out, index=close.index)}


def ROCIndicator(close, window, fill):
    return {"roc": 100 * ratio_change(close, window)}


def AwesomeOscillatorIndicator(high, low, window1, window2, fill):
    mid = (high + low) / 2
    return {"awesome_oscillator": mean_(mid, window1, fill) - mean_(mid, window2, fill)}


def WilliamsRIndicator(high, low, close, lbp, fill):
    hh = max_(high, lbp, fill)
    ll = min_(low, lbp, fill)
    return {"williams_r": -100 * (hh - close) / (hh - ll)}


def StochRSIIndicator(close, window, smooth1, smooth2, fill):
    rsi = RSIIndicator(close, window, fill)["rsi"]
    if fill:
        rsi = fillgap(rsi, 50)
    lo = rsi.rolling(window, min_periods=window).min()
    hi = rsi.rolling(window, min_periods=window).max()
    s = (rsi - lo) / (hi - lo)
    k = s.rolling(smooth1, min_periods=smooth1).mean()
    d = k.rolling(smooth2, min_periods=smooth2).mean()
    return {"stochrsi": s, "stochrsi_k": k, "stochrsi_d": d}


def _percentage_oscillator(x, window_slow, window_fast, window_sign, fill):
    fast = expma(x, window_fast, fill)
    slow = expma(x, window_slow, fill)
    line = 100 * (fast - slow) / slow
    signal = expma(line, window_sign, fill)
    return line, signal, line - signal


def PercentagePriceOscillator(close, window_slow, window_fast, window_sign, fill):
    a, b, c = _percentage_oscillator(close, window_slow, window_fast, window_sign, fill)
    return {"ppo": a, "ppo_signal": b, "ppo_hist": c}


def PercentageVolumeOscillator(volume, window_slow, window_fast, window_sign, fill):
    a, b, c = _percentage_oscillator(volume, window_slow, window_fast, window_sign, fill)
    return {"pvo": a, "pvo_signal": b, "pvo_hist": c}


# ------------------------------------------------------------------ trend
def AroonIndicator(high, low, window, fill):
    mp = 1 if fill else window + 1
    up = 100 * high.rolling(window + 1, min_periods=mp).apply(np.argmax, raw=True) / window
    down = 100 * low.rolling(window + 1, min_periods=mp).apply(np.argmin, raw=True) / window
    return {"aroon_up": up, "aroon_down": down, "aroon_indicator": up - down}


def MACD(close, window_slow, window_fast, window_sign, fill):
    line = expma(close, window_fast, fill) - expma(close, window_slow, fill)
    signal = expma(line, window_sign, fill)
    return {"macd": line, "macd_signal": signal, "macd_diff": line - signal}


def EMAIndicator(close, window, fill):
    return {"ema_indicator": expma(close, window, fill)}


def SMAIndicator(close, window, fill):
    return {"sma_indicator": mean_(close, window, fill)}


def WMAIndicator(close, window, fill):
    n = len(close)
    out = np.full(n, np.nan)
    c = close.to_numpy()
    for t in range(window - 1, n):
        total = 0.0
        for k in range(window):
            total = total + (window - k) * c[t - k]
        out[t] = total / (window * (window + 1) / 2)
    return {"wma": pd.Series(out, index=close.index)}


def TRIXIndicator(close, window, fill):
    e = expma(expma(expma(close, window, fill), window, fill), window, fill)
    return {"trix": 100 * ratio_change(e, 1)}


def MassIndex(high, low, window_fast, window_slow, fill):
    single = expma(high - low, window_fast, fill)
    double = expma(single, window_fast, fill)
    return {"mass_index": sum_(single / double, window_slow, fill)}


def IchimokuIndicator(high, low, window1, window2, window3, visual, fill):
    conv = (max_(high, window1, fill) + min_(low, window1, fill)) / 2
    base = (max_(high, window2, fill) + min_(low, window2, fill)) / 2
    a = (conv + base) / 2
    b = (max_(high, window3, fill) + min_(low, window3, fill)) / 2
    if visual:
        a = prev(a, window2)
        b = prev(b, window2)
    return {"ichimoku_conversion_line": conv, "ichimoku_base_line": base, "ichimoku_a": a, "ichimoku_b": b}


def KSTIndicator(close, roc1, roc2, roc3, roc4, window1, window2, window3, window4, nsig, fill):
    k = 100 * (mean_(ratio_change(close, roc1), window1, fill)
               + 2 * mean_(ratio_change(close, roc2), window2, fill)
               + 3 * mean_(ratio_change(close, roc3), window3, fill)
               + 4 * mean_(ratio_change(close, roc4), window4, fill))
    s = mean_(k, nsig, fill)
    return {"kst": k, "kst_sig": s, "kst_diff": k - s}


def DPOIndicator(close, window, fill):
    return {"dpo": prev(close, window // 2 + 1) - mean_(close, window, fill)}


def CCIIndicator(high, low, close, window, constant, fill):
    tp = (high + low + close) / 3
    dev = tp.rolling(window, min_periods=0 if fill else window).apply(lambda x: np.mean(np.abs(x - np.mean(x))), raw=True)
    return {"cci": (tp - mean_(tp, window, fill)) / (constant * dev)}


def _movement_sum(x, window):
    """sum over the first `window` movements (rows 1..window), then each bar takes 1/window off and adds its own"""
    n = len(x)
    v = x.to_numpy()
    out = np.zeros(n)
    for i in range(window, n):
        if i == window:
            out[i] = v[1:window + 1].sum()
        else:
            out[i] = out[i - 1] - out[i - 1] / window + v[i]
    return pd.Series(out, index=x.index)


def ADXIndicator(high, low, close, window, fill):
    n = len(close)
    pc = prev(close)
    tr = np.maximum(high, pc) - np.minimum(low, pc)
    up = high - prev(high)
    down = prev(low) - low
    pdm = up.where((up > down) & (up > 0), 0.0)
    ndm = down.where((down > up) & (down > 0), 0.0)
    st = _movement_sum(tr, window)
    p = (100 * _movement_sum(pdm, window) / st).where(st != 0, 0.0)
    m = (100 * _movement_sum(ndm, window) / st).where(st != 0, 0.0)
    dx = (100 * (p - m).abs() / (p + m)).where(p + m != 0, 0.0).to_numpy()
    adx = np.zeros(n)
    plus = np.zeros(n)
    minus = np.zeros(n)
    pv = p.to_numpy()
    mv = m.to_numpy()
    for i in range(window + 1, n):
        plus[i] = pv[i]
        minus[i] = mv[i]
    for i in range(2 * window - 1, n):
        if i == 2 * window - 1:
            adx[i] = dx[window:2 * window].mean()
        else:
            adx[i] = (adx[i - 1] * (window - 1) + dx[i]) / window
    return {"adx": pd.Series(adx, index=close.index), "adx_pos": pd.Series(plus, index=close.index),
            "adx_neg": pd.Series(minus, index=close.index)}


def VortexIndicator(high, low, close, window, fill):
    tr = sum_(trange(high, low, close), window, fill)
    plus = sum_((high - prev(low)).abs(), window, fill) / tr
    minus = sum_((low - prev(high)).abs(), window, fill) / tr
    return {"vortex_indicator_pos": plus, "vortex_indicator_neg": minus, "vortex_indicator_diff": plus - minus}


def PSARIndicator(high, low, close, step, max_step, fill):
    n = len(close)
    h, l = high.to_numpy(), low.to_numpy()
    stop = close.to_numpy().copy()
    up = np.full(n, np.nan)
    down = np.full(n, np.nan)
    rising = True
    af = step
    extreme_high = h[0]
    extreme_low = l[0]
    for i in range(2, n):
        if rising:
            s = stop[i - 1] + af * (extreme_high - stop[i - 1])
            if l[i] < s:
                # crossed: the stop jumps to the highest high of the trend that ends
                s = extreme_high
                extreme_low = l[i]
                af = step
                rising = False
            else:
                if h[i] > extreme_high:
                    extreme_high = h[i]
                    af = min(af + step, max_step)
                s = min(s, l[i - 2], l[i - 1])
        else:
            s = stop[i - 1] - af * (stop[i - 1] - extreme_low)
            if h[i] > s:
                s = extreme_low
                extreme_high = h[i]
                af = step
                rising = True
            else:
                if l[i] < extreme_low:
                    extreme_low = l[i]
                    af = min(af + step, max_step)
                s = max(s, h[i - 2], h[i - 1])
        stop[i] = s
        if rising:
            up[i] = s
        else:
            down[i] = s
    up = pd.Series(up, index=close.index)
    down = pd.Series(down, index=close.index)
    first_up = (up.notna() & up.shift(1).isna()).astype(float)
    first_down = (down.notna() & down.shift(1).isna()).astype(float)
    return {"psar": pd.Series(stop, index=close.index), "psar_up": up, "psar_down": down,
            "psar_up_indicator": first_up, "psar_down_indicator": first_down}


def STCIndicator(close, window_slow, window_fast, cycle, smooth1, smooth2, fill):
    m = expma(close, window_fast, fill) - expma(close, window_slow, fill)
    lo = m.rolling(cycle, min_periods=cycle).min()
    hi = m.rolling(cycle, min_periods=cycle).max()
    d = expma(100 * (m - lo) / (hi - lo), smooth1, fill)
    lo2 = d.rolling(cycle, min_periods=cycle).min()
    hi2 = d.rolling(cycle, min_periods=cycle).max()
    return {"stc": expma(100 * (d - lo2) / (hi2 - lo2), smooth2, fill)}


# ------------------------------------------------------------------ volatility
def AverageTrueRange(high, low, close, window, fill):
    n = len(close)
    tr = trange(high, low, close).to_numpy()
    out = np.zeros(n)
    for i in range(window - 1, n):
        if i == window - 1:
            out[i] = tr[0:window].mean()
        else:
            out[i] = (out[i - 1] * (window - 1) + tr[i]) / window
    return {"average_true_range": pd.Series(out, index=close.index)}


def BollingerBands(close, window, window_dev, fill):
    mid = mean_(close, window, fill)
    dev = close.rolling(window, min_periods=0 if fill else window).std(ddof=0)
    hi = mid + window_dev * dev
    lo = mid - window_dev * dev
    pos = ((close - lo) / (hi - lo)).where(hi != lo)
    return {"bollinger_mavg": mid, "bollinger_hband": hi, "bollinger_lband": lo,
            "bollinger_wband": 100 * (hi - lo) / mid, "bollinger_pband": pos,
            "bollinger_hband_indicator": (close > hi).astype(float),
            "bollinger_lband_indicator": (close < lo).astype(float)}


def KeltnerChannel(high, low, close, window, window_atr, original_version, multiplier, fill):
    if original_version:
        mid = mean_((high + low + close) / 3, window, fill)
        hi = mean_((4 * high - 2 * low + close) / 3, window, fill)
        lo = mean_((4 * low - 2 * high + close) / 3, window, fill)
    else:
        mid = expma(close, window, fill)
        atr = AverageTrueRange(high, low, close, window_atr, fill)["average_true_range"]
        hi = mid + multiplier * atr
        lo = mid - multiplier * atr
    return {"keltner_channel_mband": mid, "keltner_channel_hband": hi, "keltner_channel_lband": lo,
            "keltner_channel_wband": 100 * (hi - lo) / mid, "keltner_channel_pband": (close - lo) / (hi - lo),
            "keltner_channel_hband_indicator": (close > hi).astype(float),
            "keltner_channel_lband_indicator": (close < lo).astype(float)}


def DonchianChannel(high, low, close, window, offset, fill):
    hi = max_(high, window, fill)
    lo = min_(low, window, fill)
    mid = (hi + lo) / 2
    width = 100 * (hi - lo) / mean_(close, window, fill)
    pos = (close - lo) / (hi - lo)
    return {"donchian_channel_hband": prev(hi, offset), "donchian_channel_lband": prev(lo, offset),
            "donchian_channel_mband": prev(mid, offset), "donchian_channel_wband": prev(width, offset),
            "donchian_channel_pband": prev(pos, offset)}


def UlcerIndex(close, window, fill):
    peak = close.rolling(window, min_periods=1).max()
    drawdown = 100 * (close - peak) / peak
    return {"ulcer_index": np.sqrt((drawdown * drawdown).rolling(window, min_periods=window).mean())}


# ------------------------------------------------------------------ volume
def _multiplier(high, low, close):
    m = (2 * close - low - high) / (high - low)
    return m.where(high != low, 0.0)


def AccDistIndexIndicator(high, low, close, volume, fill):
    return {"acc_dist_index": (_multiplier(high, low, close) * volume).cumsum()}


def OnBalanceVolumeIndicator(close, volume, fill):
    p = prev(close)
    signed = volume.where(close != p, 0.0).where(~(close < p), -volume)
    return {"on_balance_volume": signed.cumsum()}


def ChaikinMoneyFlowIndicator(high, low, close, volume, window, fill):
    return {"chaikin_money_flow": sum_(_multiplier(high, low, close) * volume, window, fill) / sum_(volume, window, fill)}


def ForceIndexIndicator(close, volume, window, fill):
    return {"force_index": expma(volume * (close - prev(close)), window, fill)}


def EaseOfMovementIndicator(high, low, volume, window, fill):
    distance = (high + low - prev(high) - prev(low)) / 2
    e = distance * (high - low) * 100000000 / volume
    return {"ease_of_movement": e, "sma_ease_of_movement": mean_(e, window, fill)}


def VolumePriceTrendIndicator(close, volume, smoothing_factor, dropnans, fill):
    v = (volume * (close / prev(close) - 1)).cumsum()
    if smoothing_factor is not None:
        v = mean_(v, smoothing_factor, fill)
    if dropnans:
        v = v.dropna()
    return {"volume_price_trend": v}


def NegativeVolumeIndexIndicator(close, volume, fill):
    n = len(close)
    c, v = close.to_numpy(), volume.to_numpy()
    out = np.zeros(n)
    out[0] = 1000
    for i in range(1, n):
        if v[i] < v[i - 1]:
            out[i] = out[i - 1] * c[i] / c[i - 1]
        else:
            out[i] = out[i - 1]
    return {"negative_volume_index": pd.Series(out, index=close.index)}


def MFIIndicator(high, low, close, volume, window, fill):
    tp = (high + low + close) / 3
    flow = tp * volume
    plus = flow.where(tp > prev(tp), 0.0)
    minus = flow.where(tp < prev(tp), 0.0)
    r = sum_(plus, window, fill) / sum_(minus, window, fill)
    return {"money_flow_index": 100 - 100 / (1 + r)}


def VolumeWeightedAveragePrice(high, low, close, volume, window, fill):
    tp = (high + low + close) / 3
    return {"volume_weighted_average_price": sum_(tp * volume, window, fill) / sum_(volume, window, fill)}


# ------------------------------------------------------------------ others
def DailyReturnIndicator(close, fill):
    return {"daily_return": 100 * (close - prev(close)) / prev(close)}


def DailyLogReturnIndicator(close, fill):
    return {"daily_log_return": 100 * (np.log(close) - np.log(prev(close)))}


def CumulativeReturnIndicator(close, fill):
    return {"cumulative_return": 100 * (close - close.iloc[0]) / close.iloc[0]}


# ------------------------------------------------------------------ gap filling
def fillgap(x, value):
    x = x.replace([np.inf, -np.inf], np.nan).ffill()
    return x.fillna(value)


def fillnear(x):
    return x.replace([np.inf, -np.inf], np.nan).ffill().bfill()
