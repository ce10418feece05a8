/* reference: GitHub emoji names (pinned copy, independent of the tree) */
typedef struct { const char *n, *u, *i; } Ref;
static const Ref REF[] = {
{"+1","👍",NULL},
{"-1","👎",NULL},
{"100","💯",NULL},
{"1234","🔢",NULL},
{"8ball","🎱",NULL},
{"a","🅰️",NULL},
{"ab","🆎",NULL},
{"abc","🔤",NULL},
{"abcd","🔡",NULL},
{"accept","🉑",NULL},
{"aerial_tramway","🚡",NULL},
{"airplane","✈️",NULL},
{"alarm_clock","⏰",NULL},
{"alien","👽",NULL},
{"ambulance","🚑",NULL},
{"anchor","⚓",NULL},
{"angel","👼",NULL},
{"anger","💢",NULL},
{"angry","😠",NULL},
{"anguished","😧",NULL},
{"ant","🐜",NULL},
{"apple","🍎",NULL},
{"aquarius","♒",NULL},
{"aries","♈",NULL},
{"arrow_backward","◀️",NULL},
{"arrow_double_down","⏬",NULL},
{"arrow_double_up","⏫",NULL},
{"arrow_down","⬇️",NULL},
{"arrow_down_small","🔽",NULL},
{"arrow_forward","▶️",NULL},
{"arrow_heading_down","⤵️",NULL},
{"arrow_heading_up","⤴️",NULL},
{"arrow_left","⬅️",NULL},
{"arrow_lower_left","↙️",NULL},
{"arrow_lower_right","↘️",NULL},
{"arrow_right","➡️",NULL},
{"arrow_right_hook","↪️",NULL},
{"arrow_up","⬆️",NULL},
{"arrow_up_down","↕️",NULL},
{"arrow_up_small","🔼",NULL},
{"arrow_upper_left","↖️",NULL},
{"arrow_upper_right","↗️",NULL},
{"arrows_clockwise","🔃",NULL},
{"arrows_counterclockwise","🔄",NULL},
{"art","🎨",NULL},
{"articulated_lorry","🚛",NULL},
{"astonished","😲",NULL},
{"atm","🏧",NULL},
{"b","🅱️",NULL},
{"baby","👶",NULL},
{"baby_bottle","🍼",NULL},
{"baby_chick","🐤",NULL},
{"baby_symbol","🚼",NULL},
{"baggage_claim","🛄",NULL},
{"balloon","🎈",NULL},
{"ballot_box_with_check","☑️",NULL},
{"bamboo","🎍",NULL},
{"banana","🍌",NULL},
{"bangbang","‼️",NULL},
{"bank","🏦",NULL},
{"bar_chart","📊",NULL},
{"barber","💈",NULL},
{"baseball","⚾",NULL},
{"basketball","🏀",NULL},
{"bath","🛀",NULL},
{"bathtub","🛁",NULL},
{"battery","🔋",NULL},
{"bear","🐻",NULL},
{"beer","🍺",NULL},
{"beers","🍻",NULL},
{"beetle","🪲",NULL},
{"beginner","🔰",NULL},
{"bell","🔔",NULL},
{"bento","🍱",NULL},
{"bicyclist","🚴",NULL},
{"bike","🚲",NULL},
{"bikini","👙",NULL},
{"bird","🐦",NULL},
{"birthday","🎂",NULL},
{"black_circle","⚫",NULL},
{"black_joker","🃏",NULL},
{"black_nib","✒️",NULL},
{"black_square_button","🔲",NULL},
{"blossom","🌼",NULL},
{"blowfish","🐡",NULL},
{"blue_book","📘",NULL},
{"blue_car","🚙",NULL},
{"blue_heart","💙",NULL},
{"blush","😊",NULL},
{"boar","🐗",NULL},
{"boat","⛵",NULL},
{"bomb","💣",NULL},
{"book","📖",NULL},
{"bookmark","🔖",NULL},
{"bookmark_tabs","📑",NULL},
{"books","📚",NULL},
{"boom","💥",NULL},
{"boot","👢",NULL},
{"bouquet","💐",NULL},
{"bow","🙇",NULL},
{"bowling","🎳",NULL},
{"bowtie",NULL,"https://github.githubassets.com/images/icons/emoji/bowtie.png"},
{"boy","👦",NULL},
{"bread","🍞",NULL},
{"bride_with_veil","👰‍♀️",NULL},
{"bridge_at_night","🌉",NULL},
{"briefcase","💼",NULL},
{"broken_heart","💔",NULL},
{"bug","🐛",NULL},
{"bulb","💡",NULL},
{"bullettrain_front","🚅",NULL},
{"bullettrain_side","🚄",NULL},
{"bus","🚌",NULL},
{"busstop","🚏",NULL},
{"bust_in_silhouette","👤",NULL},
{"busts_in_silhouette","👥",NULL},
{"cactus","🌵",NULL},
{"cake","🍰",NULL},
{"calendar","📆",NULL},
{"calling","📲",NULL},
{"camel","🐫",NULL},
{"camera","📷",NULL},
{"cancer","♋",NULL},
{"candy","🍬",NULL},
{"capital_abcd","🔠",NULL},
{"capricorn","♑",NULL},
{"car","🚗",NULL},
{"card_index","📇",NULL},
{"carousel_horse","🎠",NULL},
{"cat","🐱",NULL},
{"cat2","🐈",NULL},
{"cd","💿",NULL},
{"chart","💹",NULL},
{"chart_with_downwards_trend","📉",NULL},
{"chart_with_upwards_trend","📈",NULL},
{"checkered_flag","🏁",NULL},
{"cherries","🍒",NULL},
{"cherry_blossom","🌸",NULL},
{"chestnut","🌰",NULL},
{"chicken","🐔",NULL},
{"children_crossing","🚸",NULL},
{"chocolate_bar","🍫",NULL},
{"christmas_tree","🎄",NULL},
{"church","⛪",NULL},
{"cinema","🎦",NULL},
{"circus_tent","🎪",NULL},
{"city_sunrise","🌇",NULL},
{"city_sunset","🌆",NULL},
{"cl","🆑",NULL},
{"clap","👏",NULL},
{"clapper","🎬",NULL},
{"clipboard","📋",NULL},
{"clock1","🕐",NULL},
{"clock10","🕙",NULL},
{"clock1030","🕥",NULL},
{"clock11","🕚",NULL},
{"clock1130","🕦",NULL},
{"clock12","🕛",NULL},
{"clock1230","🕧",NULL},
{"clock130","🕜",NULL},
{"clock2","🕑",NULL},
{"clock230","🕝",NULL},
{"clock3","🕒",NULL},
{"clock330","🕞",NULL},
{"clock4","🕓",NULL},
{"clock430","🕟",NULL},
{"clock5","🕔",NULL},
{"clock530","🕠",NULL},
{"clock6","🕕",NULL},
{"clock630","🕡",NULL},
{"clock7","🕖",NULL},
{"clock730","🕢",NULL},
{"clock8","🕗",NULL},
{"clock830","🕣",NULL},
{"clock9","🕘",NULL},
{"clock930","🕤",NULL},
{"closed_book","📕",NULL},
{"closed_lock_with_key","🔐",NULL},
{"closed_umbrella","🌂",NULL},
{"cloud","☁️",NULL},
{"clubs","♣️",NULL},
{"cn","🇨🇳",NULL},
{"cocktail","🍸",NULL},
{"coffee","☕",NULL},
{"cold_sweat","😰",NULL},
{"collision","💥",NULL},
{"computer","💻",NULL},
{"confetti_ball","🎊",NULL},
{"confounded","😖",NULL},
{"confused","😕",NULL},
{"congratulations","㊗️",NULL},
{"construction","🚧",NULL},
{"construction_worker","👷",NULL},
{"convenience_store","🏪",NULL},
{"cookie","🍪",NULL},
{"cool","🆒",NULL},
{"cop","👮",NULL},
{"copyright","©️",NULL},
{"corn","🌽",NULL},
{"couple","👫",NULL},
{"couple_with_heart","💑",NULL},
{"couplekiss","💏",NULL},
{"cow","🐮",NULL},
{"cow2","🐄",NULL},
{"credit_card","💳",NULL},
{"crocodile","🐊",NULL},
{"crossed_flags","🎌",NULL},
{"crown","👑",NULL},
{"cry","😢",NULL},
{"crying_cat_face","😿",NULL},
{"crystal_ball","🔮",NULL},
{"cupid","💘",NULL},
{"curly_loop","➰",NULL},
{"currency_exchange","💱",NULL},
{"curry","🍛",NULL},
{"custard","🍮",NULL},
{"customs","🛃",NULL},
{"cyclone","🌀",NULL},
{"dancer","💃",NULL},
{"dancers","👯",NULL},
{"dango","🍡",NULL},
{"dart","🎯",NULL},
{"dash","💨",NULL},
{"date","📅",NULL},
{"de","🇩🇪",NULL},
{"deciduous_tree","🌳",NULL},
{"department_store","🏬",NULL},
{"diamond_shape_with_a_dot_inside","💠",NULL},
{"diamonds","♦️",NULL},
{"disappointed","😞",NULL},
{"disappointed_relieved","😥",NULL},
{"dizzy","💫",NULL},
{"dizzy_face","😵",NULL},
{"do_not_litter","🚯",NULL},
{"dog","🐶",NULL},
{"dog2","🐕",NULL},
{"dollar","💵",NULL},
{"dolls","🎎",NULL},
{"dolphin","🐬",NULL},
{"door","🚪",NULL},
{"doughnut","🍩",NULL},
{"dragon","🐉",NULL},
{"dragon_face","🐲",NULL},
{"dress","👗",NULL},
{"dromedary_camel","🐪",NULL},
{"droplet","💧",NULL},
{"dvd","📀",NULL},
{"e-mail","📧",NULL},
{"ear","👂",NULL},
{"ear_of_rice","🌾",NULL},
{"earth_africa","🌍",NULL},
{"earth_americas","🌎",NULL},
{"earth_asia","🌏",NULL},
{"egg","🥚",NULL},
{"eggplant","🍆",NULL},
{"eight","8️⃣",NULL},
{"eight_pointed_black_star","✴️",NULL},
{"eight_spoked_asterisk","✳️",NULL},
{"electric_plug","🔌",NULL},
{"elephant","🐘",NULL},
{"email","📧",NULL},
{"end","🔚",NULL},
{"envelope","✉️",NULL},
{"es","🇪🇸",NULL},
{"euro","💶",NULL},
{"european_castle","🏰",NULL},
{"european_post_office","🏤",NULL},
{"evergreen_tree","🌲",NULL},
{"exclamation","❗",NULL},
{"expressionless","😑",NULL},
{"eyeglasses","👓",NULL},
{"eyes","👀",NULL},
{"facepunch","👊",NULL},
{"factory","🏭",NULL},
{"fallen_leaf","🍂",NULL},
{"family","👪",NULL},
{"fast_forward","⏩",NULL},
{"fax","📠",NULL},
{"fearful","😨",NULL},
{"feelsgood",NULL,"https://github.githubassets.com/images/icons/emoji/feelsgood.png"},
{"feet","🐾",NULL},
{"ferris_wheel","🎡",NULL},
{"file_folder","📁",NULL},
{"finnadie",NULL,"https://github.githubassets.com/images/icons/emoji/finnadie.png"},
{"fire","🔥",NULL},
{"fire_engine","🚒",NULL},
{"fireworks","🎆",NULL},
{"first_quarter_moon","🌓",NULL},
{"first_quarter_moon_with_face","🌛",NULL},
{"fish","🐟",NULL},
{"fish_cake","🍥",NULL},
{"fishing_pole_and_fish","🎣",NULL},
{"fist","✊",NULL},
{"five","5️⃣",NULL},
{"flags","🎏",NULL},
{"flashlight","🔦",NULL},
{"floppy_disk","💾",NULL},
{"flower_playing_cards","🎴",NULL},
{"flushed","😳",NULL},
{"foggy","🌁",NULL},
{"football","🏈",NULL},
{"fork_and_knife","🍴",NULL},
{"fountain","⛲",NULL},
{"four","4️⃣",NULL},
{"four_leaf_clover","🍀",NULL},
{"fr","🇫🇷",NULL},
{"free","🆓",NULL},
{"fried_shrimp","🍤",NULL},
{"fries","🍟",NULL},
{"frog","🐸",NULL},
{"frowning","😦",NULL},
{"fu","🖕",NULL},
{"fuelpump","⛽",NULL},
{"full_moon","🌕",NULL},
{"full_moon_with_face","🌝",NULL},
{"game_die","🎲",NULL},
{"gb","🇬🇧",NULL},
{"gem","💎",NULL},
{"gemini","♊",NULL},
{"ghost","👻",NULL},
{"gift","🎁",NULL},
{"gift_heart","💝",NULL},
{"girl","👧",NULL},
{"globe_with_meridians","🌐",NULL},
{"goat","🐐",NULL},
{"goberserk",NULL,"https://github.githubassets.com/images/icons/emoji/goberserk.png"},
{"godmode",NULL,"https://github.githubassets.com/images/icons/emoji/godmode.png"},
{"golf","⛳",NULL},
{"grapes","🍇",NULL},
{"green_apple","🍏",NULL},
{"green_book","📗",NULL},
{"green_heart","💚",NULL},
{"grey_exclamation","❕",NULL},
{"grey_question","❔",NULL},
{"grimacing","😬",NULL},
{"grin","😁",NULL},
{"grinning","😀",NULL},
{"guardsman","💂‍♂️",NULL},
{"guitar","🎸",NULL},
{"gun","🔫",NULL},
{"haircut","💇",NULL},
{"hamburger","🍔",NULL},
{"hammer","🔨",NULL},
{"hamster","🐹",NULL},
{"hand","✋",NULL},
{"handbag","👜",NULL},
{"hankey","💩",NULL},
{"hash","#️⃣",NULL},
{"hatched_chick","🐥",NULL},
{"hatching_chick","🐣",NULL},
{"headphones","🎧",NULL},
{"hear_no_evil","🙉",NULL},
{"heart","❤️",NULL},
{"heart_decoration","💟",NULL},
{"heart_eyes","😍",NULL},
{"heart_eyes_cat","😻",NULL},
{"heartbeat","💓",NULL},
{"heartpulse","💗",NULL},
{"hearts","♥️",NULL},
{"heavy_check_mark","✔️",NULL},
{"heavy_division_sign","➗",NULL},
{"heavy_dollar_sign","💲",NULL},
{"heavy_exclamation_mark","❗",NULL},
{"heavy_minus_sign","➖",NULL},
{"heavy_multiplication_x","✖️",NULL},
{"heavy_plus_sign","➕",NULL},
{"helicopter","🚁",NULL},
{"herb","🌿",NULL},
{"hibiscus","🌺",NULL},
{"high_brightness","🔆",NULL},
{"high_heel","👠",NULL},
{"hocho","🔪",NULL},
{"honey_pot","🍯",NULL},
{"honeybee","🐝",NULL},
{"horse","🐴",NULL},
{"horse_racing","🏇",NULL},
{"hospital","🏥",NULL},
{"hotel","🏨",NULL},
{"hotsprings","♨️",NULL},
{"hourglass","⌛",NULL},
{"hourglass_flowing_sand","⏳",NULL},
{"house","🏠",NULL},
{"house_with_garden","🏡",NULL},
{"hurtrealbad",NULL,"https://github.githubassets.com/images/icons/emoji/hurtrealbad.png"},
{"hushed","😯",NULL},
{"ice_cream","🍨",NULL},
{"icecream","🍦",NULL},
{"id","🆔",NULL},
{"ideograph_advantage","🉐",NULL},
{"imp","👿",NULL},
{"inbox_tray","📥",NULL},
{"incoming_envelope","📨",NULL},
{"information_desk_person","💁",NULL},
{"information_source","ℹ️",NULL},
{"innocent","😇",NULL},
{"interrobang","⁉️",NULL},
{"iphone","📱",NULL},
{"it","🇮🇹",NULL},
{"izakaya_lantern","🏮",NULL},
{"jack_o_lantern","🎃",NULL},
{"japan","🗾",NULL},
{"japanese_castle","🏯",NULL},
{"japanese_goblin","👺",NULL},
{"japanese_ogre","👹",NULL},
{"jeans","👖",NULL},
{"joy","😂",NULL},
{"joy_cat","😹",NULL},
{"jp","🇯🇵",NULL},
{"key","🔑",NULL},
{"keycap_ten","🔟",NULL},
{"kimono","👘",NULL},
{"kiss","💋",NULL},
{"kissing","😗",NULL},
{"kissing_cat","😽",NULL},
{"kissing_closed_eyes","😚",NULL},
{"kissing_heart","😘",NULL},
{"kissing_smiling_eyes","😙",NULL},
{"koala","🐨",NULL},
{"koko","🈁",NULL},
{"kr","🇰🇷",NULL},
{"large_blue_circle","🔵",NULL},
{"large_blue_diamond","🔷",NULL},
{"large_orange_diamond","🔶",NULL},
{"last_quarter_moon","🌗",NULL},
{"last_quarter_moon_with_face","🌜",NULL},
{"laughing","😆",NULL},
{"leaves","🍃",NULL},
{"ledger","📒",NULL},
{"left_luggage","🛅",NULL},
{"left_right_arrow","↔️",NULL},
{"leftwards_arrow_with_hook","↩️",NULL},
{"lemon","🍋",NULL},
{"leo","♌",NULL},
{"leopard","🐆",NULL},
{"libra","♎",NULL},
{"light_rail","🚈",NULL},
{"link","🔗",NULL},
{"lips","👄",NULL},
{"lipstick","💄",NULL},
{"lock","🔒",NULL},
{"lock_with_ink_pen","🔏",NULL},
{"lollipop","🍭",NULL},
{"loop","➿",NULL},
{"loudspeaker","📢",NULL},
{"love_hotel","🏩",NULL},
{"love_letter","💌",NULL},
{"low_brightness","🔅",NULL},
{"m","Ⓜ️",NULL},
{"mag","🔍",NULL},
{"mag_right","🔎",NULL},
{"mahjong","🀄",NULL},
{"mailbox","📫",NULL},
{"mailbox_closed","📪",NULL},
{"mailbox_with_mail","📬",NULL},
{"mailbox_with_no_mail","📭",NULL},
{"man","👨",NULL},
{"man_with_gua_pi_mao","👲",NULL},
{"man_with_turban","👳‍♂️",NULL},
{"mans_shoe","👞",NULL},
{"maple_leaf","🍁",NULL},
{"mask","😷",NULL},
{"massage","💆",NULL},
{"meat_on_bone","🍖",NULL},
{"mega","📣",NULL},
{"melon","🍈",NULL},
{"memo","📝",NULL},
{"mens","🚹",NULL},
{"metal","🤘",NULL},
{"metro","🚇",NULL},
{"microphone","🎤",NULL},
{"microscope","🔬",NULL},
{"milky_way","🌌",NULL},
{"minibus","🚐",NULL},
{"minidisc","💽",NULL},
{"mobile_phone_off","📴",NULL},
{"money_with_wings","💸",NULL},
{"moneybag","💰",NULL},
{"monkey","🐒",NULL},
{"monkey_face","🐵",NULL},
{"monorail","🚝",NULL},
{"moon","🌔",NULL},
{"mortar_board","🎓",NULL},
{"mount_fuji","🗻",NULL},
{"mountain_bicyclist","🚵",NULL},
{"mountain_cableway","🚠",NULL},
{"mountain_railway","🚞",NULL},
{"mouse","🐭",NULL},
{"mouse2","🐁",NULL},
{"movie_camera","🎥",NULL},
{"moyai","🗿",NULL},
{"muscle","💪",NULL},
{"mushroom","🍄",NULL},
{"musical_keyboard","🎹",NULL},
{"musical_note","🎵",NULL},
{"musical_score","🎼",NULL},
{"mute","🔇",NULL},
{"nail_care","💅",NULL},
{"name_badge","📛",NULL},
{"neckbeard",NULL,"https://github.githubassets.com/images/icons/emoji/neckbeard.png"},
{"necktie","👔",NULL},
{"negative_squared_cross_mark","❎",NULL},
{"neutral_face","😐",NULL},
{"new","🆕",NULL},
{"new_moon","🌑",NULL},
{"new_moon_with_face","🌚",NULL},
{"newspaper","📰",NULL},
{"ng","🆖",NULL},
{"nine","9️⃣",NULL},
{"no_bell","🔕",NULL},
{"no_bicycles","🚳",NULL},
{"no_entry","⛔",NULL},
{"no_entry_sign","🚫",NULL},
{"no_good","🙅",NULL},
{"no_mobile_phones","📵",NULL},
{"no_mouth","😶",NULL},
{"no_pedestrians","🚷",NULL},
{"no_smoking","🚭",NULL},
{"non-potable_water","🚱",NULL},
{"nose","👃",NULL},
{"notebook","📓",NULL},
{"notebook_with_decorative_cover","📔",NULL},
{"notes","🎶",NULL},
{"nut_and_bolt","🔩",NULL},
{"o","⭕",NULL},
{"o2","🅾️",NULL},
{"ocean","🌊",NULL},
{"octocat",NULL,"https://github.githubassets.com/images/icons/emoji/octocat.png"},
{"octopus","🐙",NULL},
{"oden","🍢",NULL},
{"office","🏢",NULL},
{"ok","🆗",NULL},
{"ok_hand","👌",NULL},
{"ok_woman","🙆‍♀️",NULL},
{"older_man","👴",NULL},
{"older_woman","👵",NULL},
{"on","🔛",NULL},
{"oncoming_automobile","🚘",NULL},
{"oncoming_bus","🚍",NULL},
{"oncoming_police_car","🚔",NULL},
{"oncoming_taxi","🚖",NULL},
{"one","1️⃣",NULL},
{"open_file_folder","📂",NULL},
{"open_hands","👐",NULL},
{"open_mouth","😮",NULL},
{"ophiuchus","⛎",NULL},
{"orange_book","📙",NULL},
{"outbox_tray","📤",NULL},
{"ox","🐂",NULL},
{"page_facing_up","📄",NULL},
{"page_with_curl","📃",NULL},
{"pager","📟",NULL},
{"palm_tree","🌴",NULL},
{"panda_face","🐼",NULL},
{"paperclip","📎",NULL},
{"parking","🅿️",NULL},
{"part_alternation_mark","〽️",NULL},
{"partly_sunny","⛅",NULL},
{"passport_control","🛂",NULL},
{"paw_prints","🐾",NULL},
{"peach","🍑",NULL},
{"pear","🍐",NULL},
{"pencil","📝",NULL},
{"pencil2","✏️",NULL},
{"penguin","🐧",NULL},
{"pensive","😔",NULL},
{"performing_arts","🎭",NULL},
{"persevere","😣",NULL},
{"phone","☎️",NULL},
{"pig","🐷",NULL},
{"pig2","🐖",NULL},
{"pig_nose","🐽",NULL},
{"pill","💊",NULL},
{"pineapple","🍍",NULL},
{"pisces","♓",NULL},
{"pizza","🍕",NULL},
{"point_down","👇",NULL},
{"point_left","👈",NULL},
{"point_right","👉",NULL},
{"point_up","☝️",NULL},
{"point_up_2","👆",NULL},
{"police_car","🚓",NULL},
{"poodle","🐩",NULL},
{"poop","💩",NULL},
{"post_office","🏣",NULL},
{"postal_horn","📯",NULL},
{"postbox","📮",NULL},
{"potable_water","🚰",NULL},
{"pouch","👝",NULL},
{"poultry_leg","🍗",NULL},
{"pound","💷",NULL},
{"pouting_cat","😾",NULL},
{"pray","🙏",NULL},
{"princess","👸",NULL},
{"punch","👊",NULL},
{"purple_heart","💜",NULL},
{"purse","👛",NULL},
{"pushpin","📌",NULL},
{"put_litter_in_its_place","🚮",NULL},
{"question","❓",NULL},
{"rabbit","🐰",NULL},
{"rabbit2","🐇",NULL},
{"racehorse","🐎",NULL},
{"radio","📻",NULL},
{"radio_button","🔘",NULL},
{"rage","😡",NULL},
{"rage1",NULL,"https://github.githubassets.com/images/icons/emoji/rage1.png"},
{"rage2",NULL,"https://github.githubassets.com/images/icons/emoji/rage2.png"},
{"rage3",NULL,"https://github.githubassets.com/images/icons/emoji/rage3.png"},
{"rage4",NULL,"https://github.githubassets.com/images/icons/emoji/rage4.png"},
{"railway_car","🚃",NULL},
{"rainbow","🌈",NULL},
{"raised_hand","✋",NULL},
{"raised_hands","🙌",NULL},
{"raising_hand","🙋",NULL},
{"ram","🐏",NULL},
{"ramen","🍜",NULL},
{"rat","🐀",NULL},
{"recycle","♻️",NULL},
{"red_car","🚗",NULL},
{"red_circle","🔴",NULL},
{"registered","®️",NULL},
{"relaxed","☺️",NULL},
{"relieved","😌",NULL},
{"repeat","🔁",NULL},
{"repeat_one","🔂",NULL},
{"restroom","🚻",NULL},
{"revolving_hearts","💞",NULL},
{"rewind","⏪",NULL},
{"ribbon","🎀",NULL},
{"rice","🍚",NULL},
{"rice_ball","🍙",NULL},
{"rice_cracker","🍘",NULL},
{"rice_scene","🎑",NULL},
{"ring","💍",NULL},
{"rocket","🚀",NULL},
{"roller_coaster","🎢",NULL},
{"rooster","🐓",NULL},
{"rose","🌹",NULL},
{"rotating_light","🚨",NULL},
{"round_pushpin","📍",NULL},
{"rowboat","🚣",NULL},
{"ru","🇷🇺",NULL},
{"rugby_football","🏉",NULL},
{"runner","🏃",NULL},
{"running","🏃",NULL},
{"running_shirt_with_sash","🎽",NULL},
{"sa","🈂️",NULL},
{"sagittarius","♐",NULL},
{"sailboat","⛵",NULL},
{"sake","🍶",NULL},
{"sandal","👡",NULL},
{"santa","🎅",NULL},
{"satellite","📡",NULL},
{"satisfied","😆",NULL},
{"saxophone","🎷",NULL},
{"school","🏫",NULL},
{"school_satchel","🎒",NULL},
{"scissors","✂️",NULL},
{"scorpius","♏",NULL},
{"scream","😱",NULL},
{"scream_cat","🙀",NULL},
{"scroll","📜",NULL},
{"seat","💺",NULL},
{"secret","㊙️",NULL},
{"see_no_evil","🙈",NULL},
{"seedling","🌱",NULL},
{"seven","7️⃣",NULL},
{"shaved_ice","🍧",NULL},
{"sheep","🐑",NULL},
{"shell","🐚",NULL},
{"ship","🚢",NULL},
{"shirt","👕",NULL},
{"shit","💩",NULL},
{"shoe","👞",NULL},
{"shower","🚿",NULL},
{"signal_strength","📶",NULL},
{"six","6️⃣",NULL},
{"six_pointed_star","🔯",NULL},
{"ski","🎿",NULL},
{"skull","💀",NULL},
{"sleeping","😴",NULL},
{"sleepy","😪",NULL},
{"slot_machine","🎰",NULL},
{"small_blue_diamond","🔹",NULL},
{"small_orange_diamond","🔸",NULL},
{"small_red_triangle","🔺",NULL},
{"small_red_triangle_down","🔻",NULL},
{"smile","😄",NULL},
{"smile_cat","😸",NULL},
{"smiley","😃",NULL},
{"smiley_cat","😺",NULL},
{"smiling_imp","😈",NULL},
{"smirk","😏",NULL},
{"smirk_cat","😼",NULL},
{"smoking","🚬",NULL},
{"snail","🐌",NULL},
{"snake","🐍",NULL},
{"snowboarder","🏂",NULL},
{"snowflake","❄️",NULL},
{"snowman","⛄",NULL},
{"sob","😭",NULL},
{"soccer","⚽",NULL},
{"soon","🔜",NULL},
{"sos","🆘",NULL},
{"sound","🔉",NULL},
{"space_invader","👾",NULL},
{"spades","♠️",NULL},
{"spaghetti","🍝",NULL},
{"sparkler","🎇",NULL},
{"sparkles","✨",NULL},
{"sparkling_heart","💖",NULL},
{"speak_no_evil","🙊",NULL},
{"speaker","🔈",NULL},
{"speech_balloon","💬",NULL},
{"speedboat","🚤",NULL},
{"star","⭐",NULL},
{"star2","🌟",NULL},
{"stars","🌠",NULL},
{"station","🚉",NULL},
{"statue_of_liberty","🗽",NULL},
{"steam_locomotive","🚂",NULL},
{"stew","🍲",NULL},
{"straight_ruler","📏",NULL},
{"strawberry","🍓",NULL},
{"stuck_out_tongue","😛",NULL},
{"stuck_out_tongue_closed_eyes","😝",NULL},
{"stuck_out_tongue_winking_eye","😜",NULL},
{"sun_with_face","🌞",NULL},
{"sunflower","🌻",NULL},
{"sunglasses","😎",NULL},
{"sunny","☀️",NULL},
{"sunrise","🌅",NULL},
{"sunrise_over_mountains","🌄",NULL},
{"surfer","🏄",NULL},
{"sushi","🍣",NULL},
{"suspect",NULL,"https://github.githubassets.com/images/icons/emoji/suspect.png"},
{"suspension_railway","🚟",NULL},
{"sweat","😓",NULL},
{"sweat_drops","💦",NULL},
{"sweat_smile","😅",NULL},
{"sweet_potato","🍠",NULL},
{"swimmer","🏊",NULL},
{"symbols","🔣",NULL},
{"syringe","💉",NULL},
{"tada","🎉",NULL},
{"tanabata_tree","🎋",NULL},
{"tangerine","🍊",NULL},
{"taurus","♉",NULL},
{"taxi","🚕",NULL},
{"tea","🍵",NULL},
{"telephone","☎️",NULL},
{"telephone_receiver","📞",NULL},
{"telescope","🔭",NULL},
{"tennis","🎾",NULL},
{"tent","⛺",NULL},
{"thought_balloon","💭",NULL},
{"three","3️⃣",NULL},
{"thumbsdown","👎",NULL},
{"thumbsup","👍",NULL},
{"ticket","🎫",NULL},
{"tiger","🐯",NULL},
{"tiger2","🐅",NULL},
{"tired_face","😫",NULL},
{"tm","™️",NULL},
{"toilet","🚽",NULL},
{"tokyo_tower","🗼",NULL},
{"tomato","🍅",NULL},
{"tongue","👅",NULL},
{"top","🔝",NULL},
{"tophat","🎩",NULL},
{"tractor","🚜",NULL},
{"traffic_light","🚥",NULL},
{"train","🚋",NULL},
{"train2","🚆",NULL},
{"tram","🚊",NULL},
{"triangular_flag_on_post","🚩",NULL},
{"triangular_ruler","📐",NULL},
{"trident","🔱",NULL},
{"triumph","😤",NULL},
{"trolleybus","🚎",NULL},
{"trollface",NULL,"https://github.githubassets.com/images/icons/emoji/trollface.png"},
{"trophy","🏆",NULL},
{"tropical_drink","🍹",NULL},
{"tropical_fish","🐠",NULL},
{"truck","🚚",NULL},
{"trumpet","🎺",NULL},
{"tshirt","👕",NULL},
{"tulip","🌷",NULL},
{"turtle","🐢",NULL},
{"tv","📺",NULL},
{"twisted_rightwards_arrows","🔀",NULL},
{"two","2️⃣",NULL},
{"two_hearts","💕",NULL},
{"two_men_holding_hands","👬",NULL},
{"two_women_holding_hands","👭",NULL},
{"u5272","🈹",NULL},
{"u5408","🈴",NULL},
{"u55b6","🈺",NULL},
{"u6307","🈯",NULL},
{"u6708","🈷️",NULL},
{"u6709","🈶",NULL},
{"u6e80","🈵",NULL},
{"u7121","🈚",NULL},
{"u7533","🈸",NULL},
{"u7981","🈲",NULL},
{"u7a7a","🈳",NULL},
{"uk","🇬🇧",NULL},
{"umbrella","☔",NULL},
{"unamused","😒",NULL},
{"underage","🔞",NULL},
{"unlock","🔓",NULL},
{"up","🆙",NULL},
{"us","🇺🇸",NULL},
{"v","✌️",NULL},
{"vertical_traffic_light","🚦",NULL},
{"vhs","📼",NULL},
{"vibration_mode","📳",NULL},
{"video_camera","📹",NULL},
{"video_game","🎮",NULL},
{"violin","🎻",NULL},
{"virgo","♍",NULL},
{"volcano","🌋",NULL},
{"vs","🆚",NULL},
{"walking","🚶",NULL},
{"waning_crescent_moon","🌘",NULL},
{"waning_gibbous_moon","🌖",NULL},
{"warning","⚠️",NULL},
{"watch","⌚",NULL},
{"water_buffalo","🐃",NULL},
{"watermelon","🍉",NULL},
{"wave","👋",NULL},
{"wavy_dash","〰️",NULL},
{"waxing_crescent_moon","🌒",NULL},
{"waxing_gibbous_moon","🌔",NULL},
{"wc","🚾",NULL},
{"weary","😩",NULL},
{"wedding","💒",NULL},
{"whale","🐳",NULL},
{"whale2","🐋",NULL},
{"wheelchair","♿",NULL},
{"white_check_mark","✅",NULL},
{"white_circle","⚪",NULL},
{"white_flower","💮",NULL},
{"white_square_button","🔳",NULL},
{"wind_chime","🎐",NULL},
{"wine_glass","🍷",NULL},
{"wink","😉",NULL},
{"wolf","🐺",NULL},
{"woman","👩",NULL},
{"womans_clothes","👚",NULL},
{"womans_hat","👒",NULL},
{"womens","🚺",NULL},
{"worried","😟",NULL},
{"wrench","🔧",NULL},
{"x","❌",NULL},
{"yellow_heart","💛",NULL},
{"yen","💴",NULL},
{"yum","😋",NULL},
{"zap","⚡",NULL},
{"zero","0️⃣",NULL},
{"zzz","💤",NULL},
};
#define NREF 861
