"""Ordinary words that stand near numbers in real texts.  None of them is a number word, an ordinal or a connector
of its language (checked against the reviewed vocabulary below), so none may change, join or split a number."""
import unicodedata

from mc import lang as L

_RAW = {
    "en": """a an the half halves quarter quarters dozen dozens score scores minus plus negative positive point dot comma percent per cent
    couple pair pairs o oh nil nought naught null none nothing of or to in on at for by x times time twice thrice once single double triple
    both few several many some about around almost nearly exactly only over under above below than more less most least up down from
    until till between through per each every another other no not nor but so if then as is are was were be am pm k m bn kg km mm usd
    dollars dollar cents euro euros pounds pound rupees rubles years year old months days day hours hour minutes o'clock noon midnight
    page chapter number no nr num part version level grade class st nd rd th hundredths tenths thousandths hundreds thousands millions billions
    ones twos threes fives tens twenties thirties fourty ninty fourtieth lakh crore gross grand googol myriad umpteen zillion infinity
    he she it they we you i who which that this these those all any first-class next last same equals divided multiplied plus-minus
    january may march sunday monday chapter-two street avenue apartment room gate platform flight route""",
    "es": """el la los las lo unos unas medio media mitad tercio cuarto docena docenas menos más mas coma punto por ciento par pares vez veces
    primero primera primer segundo segunda tercero tercera tercer cuarto quinto sexto séptimo octavo noveno décimo e o u ni pero que de del al a en con
    sin sobre entre hasta desde casi unos pocos varios varias muchos algunos ambos solo sólo año años mes meses día días hora horas minuto euros euro
    pesos dólares páginas capítulo número nº es son fue hay tengo había nada nulo doble triple uns dose trese quinse nueb miles cientos centenares
    centena decena decenas x kg km no sí se me te le su mi tu yo él ella ellos nosotros cada todo todos otra otro""",
    "hi": """डेढ़ ढाई साढ़े सवा पौने आधा आधी पाव और या एवं दशमलव ऋण धन गुना दर्जन जोड़ा जोड़ी बार पहला पहली दूसरा दूसरी तीसरा तीसरी चौथा पाँचवाँ दसवाँ
    दोनों तीनों चारों सैकड़ा सैकड़ों हज़ारों लाखों करोड़ों प्रतिशत रुपये रुपए रुपया साल वर्ष महीने दिन घंटे बजे मिनट में से का की के को पर ने तक है हैं था थे
    लगभग करीब केवल सिर्फ कुछ कई सब हर नहीं भी ही किलो मीटर पन्ने बटा भाग जमा घटा अगला""",
    "ru": """полтора полторы пол половина половиной треть четверть десяток десятка дюжина дюжины сотня сотни минус плюс целых целая десятых запятая
    точка процент процентов и или а но да пара пары раз раза первый первая второй вторая третий третья четвёртый пятый десятый сотый тысячный
    оба обе двое трое четверо пятеро вдвоём дважды трижды однажды нечто ничего никто не ни в на с по за до от из у к о об при через около почти
    ровно только лишь больше меньше лет год года месяцев дней часов минут рублей рубля руб коп долларов евро штук человек номер глава стр
    он она оно они мы вы я это тот все всё каждый другой х кг км уж жды""",
    "uk": """півтора півтори пів половина третина чверть десяток дюжина дюжини сотня сотні мінус плюс цілих кома крапка відсоток відсотків і й та або
    але пара пари раз рази перший перша другий друга третій третя четвертий десятий сотий обидва обидві двоє троє четверо двічі тричі
    нічого ніхто не ні в у на з зі по за до від із к о об при через близько майже рівно тільки лише більше менше років рік року місяців днів
    годин хвилин гривень гривні грн доларів євро штук людей номер розділ він вона воно вони ми ви я це той усі все кожен інший х кг км м'яч об'єкт
    п'яний сім'я ім'я бур'ян""",
}


def words(lang):
    out = []
    for w in dict.fromkeys(_RAW[lang].split()):
        if not all(unicodedata.category(x)[0] in "LM" or x == "'" for x in w):
            continue
        f = L.fold(w)
        if f in L.FOLDED[lang] or f in L.SKIP[lang] or L.is_recognised(w, lang):
            continue
        base = L.IRREGULAR.get(f, f)
        if any(base.endswith(a) and base[:len(base) - len(a)] + b in L.FOLDED[lang] for a, b in (("", ""), ("ieth", "y"), ("th", ""))):
            continue
        out.append(w)
    return out


WORDS = {l: words(l) for l in L.LANGS}
